"""Entry point: runs one check (see run.sh)."""

import importlib
import json
import os
import subprocess
import sys
import tempfile
import shutil
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import boot  # pylint: disable=g-import-not-at-top
from mc import core


def load(prop):
  return importlib.import_module('checks.' + prop.lower())


def worker(prop, tier, seed, shard, shards, out):
  boot.boot()
  module = load(prop)
  ctx = core.Context(prop, tier, seed)
  n = 0

  def cases():
    nonlocal n
    for i, case in enumerate(module.cases(tier)):
      if i % shards == shard:
        n += 1
        yield case

  bad = core.run_cases(module, ctx, cases())
  result = ctx.counters()
  result['n_cases'] = n
  result['violation'] = None
  if bad is not None:
    case, signature, message = bad
    result['violation'] = core.jsonable(
        {'case': case, 'signature': signature, 'message': message}
    )
  with open(out, 'w') as f:
    json.dump(result, f)


def main(argv):
  if argv[1] == 'selftest':
    return selftest()
  prop = argv[1].upper()
  mode = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1') or '1')

  if mode == 'shard':
    worker(prop, argv[3], seed, int(argv[4]), int(argv[5]), argv[6])
    return 0

  if mode == 'replay':
    boot.boot()
    module = load(prop)
    with open(argv[3]) as f:
      art = json.load(f)
    ctx = core.Context(prop, art.get('tier', 'thorough'), seed)
    bad = core.run_cases(module, ctx, [art['case']])
    if bad is None:
      print('replay: no violation')
      return 0
    print(f'{bad[1]}: {bad[2]}')
    print(f'VIOLATION property={prop} replay={argv[3]}')
    return 1

  tier = mode
  assert tier in ('quick', 'thorough'), tier
  start = time.time()
  boot_needed = {}
  module_workers = {'quick': 8, 'thorough': 8}
  # Import only the (cheap) metadata of the check here; the workers boot.
  meta = load_meta(prop)
  module_workers.update(getattr(meta, 'WORKERS', {}))
  shards = module_workers[tier]
  tmp = tempfile.mkdtemp(prefix='pdmc_run_')
  try:
    env = dict(os.environ)
    gen = build_gen(tmp)
    env['PDMC_GEN'] = gen
    env['TMPDIR'] = tmp
    procs = []
    for k in range(shards):
      out = os.path.join(tmp, f'out{k}.json')
      procs.append((
          out,
          subprocess.Popen(
              [sys.executable, '-W', 'ignore', os.path.abspath(__file__), prop,
               'shard', tier, str(k), str(shards), out],
              env=env,
              stdout=subprocess.DEVNULL if not os.environ.get('PDMC_VERBOSE')
              else None,
              stderr=open(os.path.join(tmp, f'err{k}'), 'w'),
          ),
      ))
    parts = []
    failed = None
    for k, (out, proc) in enumerate(procs):
      code = proc.wait()
      if code != 0 or not os.path.exists(out):
        with open(os.path.join(tmp, f'err{k}')) as f:
          failed = f.read()[-6000:]
        continue
      with open(out) as f:
        parts.append(json.load(f))
  finally:
    shutil.rmtree(tmp, ignore_errors=True)

  violations = [p['violation'] for p in parts if p['violation']]
  if failed is not None and not violations:
    print(failed, file=sys.stderr)
    print(f'check {prop} could not run', file=sys.stderr)
    return 2
  total = core.merge(parts)
  n_cases = sum(p['n_cases'] for p in parts)
  body = core.write_evidence(
      meta, tier, seed, total, time.time() - start, len(violations), n_cases
  )
  for sig, text in sorted(total['known_hits'].items()):
    print(f'KNOWN-FINDING: property={prop} signature={sig} {text}')
  cov = body['coverage']
  print(
      f'{prop} {tier}: cases={n_cases} '
      + ' '.join(
          f'{k}={cov[k]}'
          for k in ('states', 'transitions', 'traces_validated_against_impl',
                    'evaluations', 'distinct_nontrivial')
          if k in cov
      )
      + f' wall={body["wall_s"]}s'
  )
  if violations:
    v = violations[0]
    path = core.write_artefact(prop, v['case'], v['signature'], v['message'])
    print(v['signature'])
    print(v['message'][-3000:])
    print(f'VIOLATION property={prop} replay={path}')
    return 1
  return 0


def selftest():
  """Checks that the tools the checks need are there."""
  tmp = tempfile.mkdtemp(prefix='pdmc_self_')
  try:
    os.environ['PDMC_GEN'] = build_gen(tmp)
    boot.boot()
    from putting_dune import putting_dune_pb2  # pylint: disable=g-import-not-at-top

    assert putting_dune_pb2.Point2D(x=1.0).x == 1.0
  finally:
    shutil.rmtree(tmp, ignore_errors=True)
  print('ready')
  return 0


def load_meta(prop):
  """Reads PROPERTY/LEVEL/RULE/ASSUMPTIONS/WORKERS without importing the code."""
  import ast
  import types

  path = os.path.join(
      os.path.dirname(os.path.abspath(__file__)), 'checks', prop.lower() + '.py'
  )
  tree = ast.parse(open(path).read())
  meta = types.SimpleNamespace()
  for node in tree.body:
    if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
      name = node.targets[0].id
      if name in ('PROPERTY', 'LEVEL', 'RULE', 'ASSUMPTIONS', 'WORKERS'):
        setattr(meta, name, ast.literal_eval(node.value))
  return meta


def build_gen(tmp):
  gen = os.path.join(tmp, 'gen')
  os.makedirs(gen)
  pkg = os.path.join(boot.REPO, 'putting_dune')
  protos = [
      os.path.join('putting_dune', f)
      for f in sorted(os.listdir(pkg))
      if f.endswith('.proto')
  ]
  subprocess.run(
      ['/usr/bin/protoc', '-I=' + boot.TF_INCLUDE, '-I=.', '--python_out=' + gen]
      + protos,
      cwd=boot.REPO,
      check=True,
  )
  return gen


if __name__ == '__main__':
  sys.exit(main(sys.argv))
