"""Mutation sweep, to find behaviour that the checks do not decide.

Usage (env as in run.sh): python tools/mutate.py <out.jsonl> <seconds> [file[:max]]...
Every mutant of a file is given to the checks of that file, whose cases are run
in a shuffled order in one process until one fails or the time is over.
"""

import ast
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

CHECKS = {
    'graphene.py': '02 03 16 17 11 41',
    'simulator.py': '03 04 05 06 07 02',
    'simulator_observers.py': '07 35',
    'putting_dune_environment.py': '01 05 49 08',
    'microscope_utils.py': '12 13 06 15 40 05 22',
    'goals.py': '09 01',
    'action_adapters.py': '10 18',
    'feature_constructors.py': '11',
    'geometry.py': '39 12 30',
    'io.py': '14 22',
    'imaging.py': '32',
    'alignment.py': '27 28 29 30 33',
    'atom_detector.py': '31 47',
    'agents/agent_lib.py': '37',
    'microscope_agent.py': '18 19',
    'eval_lib.py': '20 21',
    'eval.py': '20',
    'experiments/experiments.py': '36',
    'experiments/registry.py': '36 47 50 20',
    'plotting_utils.py': '35 49 43 42',
    'run_helpers.py': '36 20 18',
    'rate_learning/learn_rates.py': '34 43 17 42 16',
    'rate_learning/data_utils.py': '23 24 25 26 41 17 42',
    'pipeline/train_rate_learner.py': '42 23 24 43',
    'pipeline/align_trajectories.py': '33 22',
    'pipeline/trajectories_to_transitions.py': '22',
    'pipeline/upload_microscope_data.py': '38',
    'atom_detection/dataset.py': '45 48',
    'atom_detection/model.py': '46',
    'atom_detection/save_model.py': '47',
    'atom_detection/train.py': '44 48 47',
    'graph_alignment/dataset.py': '45 48',
    'graph_alignment/model.py': '46',
    'graph_alignment/train.py': '44 48 45',
    'image_alignment/dataset.py': '45 48',
    'image_alignment/model.py': '46',
    'image_alignment/save_model.py': '47',
    'image_alignment/train.py': '44 48 45',
}
SWAPS = {
    'x': 'y', 'y': 'x', 'lower_left': 'upper_right', 'upper_right': 'lower_left',
    'min': 'max', 'max': 'min', 'argmin': 'argmax', 'argmax': 'argmin',
    'minimum': 'maximum', 'maximum': 'minimum', 'floor': 'ceil', 'ceil': 'floor',
    'sin': 'cos', 'cos': 'sin', 'zeros': 'ones', 'ones': 'zeros', 'width': 'height',
    'height': 'width', 'all': 'any', 'any': 'all', 'sum': 'mean', 'mean': 'sum',
    'append': 'extend', 'zeros_like': 'ones_like', 'low': 'high', 'high': 'low',
}
COMPARE = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
           ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
           ast.In: ast.NotIn, ast.NotIn: ast.In}
BINARY = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
          ast.FloorDiv: ast.Div, ast.Mod: ast.Mult, ast.Pow: ast.Mult}


def skipped(node):
  """Code which only talks to people, or runs on a missing package."""
  if isinstance(node, ast.Call):
    name = ast.unparse(node.func)
    return name.startswith(('logging.', 'flags.', 'print', 'tqdm', 'typing.', 'TypeVar'))
  if isinstance(node, ast.Raise):
    return True
  if isinstance(node, ast.If):
    return '__name__' in ast.unparse(node.test)
  return isinstance(node, (ast.JoinedStr, ast.Import, ast.ImportFrom))


def mutants(source, second=bool(os.environ.get('MUT_SECOND'))):
  """Yields (line, what, mutated source)."""
  tree = ast.parse(source)
  lines = source.splitlines(keepends=True)
  starts = [0]
  for line in lines:
    starts.append(starts[-1] + len(line.encode()))
  data = source.encode()

  def replace(node, text):
    a = starts[node.lineno - 1] + node.col_offset
    b = starts[node.end_lineno - 1] + node.end_col_offset
    return (data[:a] + text.encode() + data[b:]).decode()

  def variants(node):
    u = ast.unparse
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
      op = type(node.ops[0])
      if op in COMPARE:
        yield u(ast.Compare(node.left, [COMPARE[op]()], node.comparators))
      if op in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
        other = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]
        yield u(ast.Compare(node.left, [other()], node.comparators))
    elif isinstance(node, ast.BinOp) and type(node.op) in BINARY:
      yield '(' + u(ast.BinOp(node.left, BINARY[type(node.op)](), node.right)) + ')'
      if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult)):
        yield u(node.left)
    elif isinstance(node, ast.BoolOp):
      other = ast.Or() if isinstance(node.op, ast.And) else ast.And()
      yield '(' + u(ast.BoolOp(other, node.values)) + ')'
      yield u(node.values[0])
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
      yield u(node.operand)
    elif isinstance(node, ast.Constant):
      v = node.value
      if isinstance(v, bool):
        yield str(not v)
      elif isinstance(v, int):
        yield str(v + 1)
        if v > 1:
          yield str(v - 1)
      elif isinstance(v, float):
        yield repr(v * 1.5 if v else 0.25)
    elif isinstance(node, ast.Attribute) and node.attr in SWAPS:
      yield u(ast.Attribute(node.value, SWAPS[node.attr]))
    elif isinstance(node, ast.Call):
      name = node.func.attr if isinstance(node.func, ast.Attribute) else ''
      if name in ('copy', 'astype') and isinstance(node.func, ast.Attribute):
        yield u(node.func.value)
      if ast.unparse(node.func) in ('copy.copy', 'copy.deepcopy', 'tuple', 'list', 'np.abs', 'abs',
                                    'np.sort', 'sorted', 'np.exp', 'np.sqrt', 'np.copy', 'np.array',
                                    'np.clip', 'float', 'int') and node.args:
        yield u(node.args[0])
      for k in range(len(node.keywords)):
        if node.keywords[k].arg:
          yield u(ast.Call(node.func, node.args, node.keywords[:k] + node.keywords[k + 1:]))
      if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args[:2]):
        yield u(ast.Call(node.func, [node.args[1], node.args[0]] + node.args[2:], node.keywords))
    elif isinstance(node, ast.IfExp):
      yield '(' + u(node.body) + ')'
      yield '(' + u(node.orelse) + ')'
    elif isinstance(node, (ast.Continue, ast.Break, ast.AugAssign)):
      yield 'pass'
    elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
      yield 'pass'
    elif isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Subscript, ast.Attribute)):
      yield 'pass'
    elif isinstance(node, ast.Assign) and any(
        isinstance(n, ast.Name) and n.id == getattr(node.targets[0], 'id', None)
        for n in ast.walk(node.value)):
      yield 'pass'
    elif isinstance(node, ast.Slice):
      if node.lower is not None:
        yield u(ast.Slice(None, node.upper, node.step))
      if node.upper is not None:
        yield u(ast.Slice(node.lower, None, node.step))

  def quiet(node):
    """The second family: changes which only show in what they leave behind."""
    u = ast.unparse
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
      if isinstance(node.left, (ast.Name, ast.Attribute)):
        x, y = u(node.left), u(node.right)
        name = {ast.Add: 'add', ast.Sub: 'subtract', ast.Mult: 'multiply', ast.Div: 'divide'}[
            type(node.op)]
        n = "__import__('numpy')"
        yield (f'({n}.{name}({x}, {y}, out={x}) if type({x}) is {n}.ndarray and '
               f"{x}.dtype.kind == 'f' and {x}.flags.writeable and "
               f'{n}.shape({x}) == {n}.shape({u(node)}) else {u(node)})')
      if isinstance(node.op, ast.Div):
        yield '(' + u(ast.BinOp(node.left, ast.FloorDiv(), node.right)) + ')'
    elif isinstance(node, ast.Compare) and len(node.ops) == 1 and (
        isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None):
      if isinstance(node.ops[0], ast.Is):
        yield f'(not {u(node.left)})'
      elif isinstance(node.ops[0], ast.IsNot):
        yield f'bool({u(node.left)})'
    elif isinstance(node, ast.Call):
      name = u(node.func)
      if name.endswith('.total_seconds') and not node.args:
        yield u(ast.Attribute(node.func.value, 'seconds'))
      if (name == 'dt.timedelta' and node.keywords and node.keywords[0].arg == 'seconds'
          and not isinstance(node.keywords[0].value, ast.Constant)):
        yield f'dt.timedelta(seconds=int({u(node.keywords[0].value)}))'
      if name in ('np.array', 'np.copy'):
        yield u(ast.Call(ast.Name('np.asarray'), node.args, [
            k for k in node.keywords if k.arg != 'copy']))
      if name.endswith('.copy') and not node.args:
        yield u(node.func.value)
      if name in ('copy.copy', 'copy.deepcopy', 'list', 'dict') and node.args:
        yield u(node.args[0])
      if name == 'copy.deepcopy':
        yield u(ast.Call(ast.Attribute(ast.Name('copy'), 'copy'), node.args, []))
      if name in ('np.round', 'round', 'np.rint') and node.args:
        yield f'np.floor({u(node.args[0])})'
      if name in ('np.abs', 'abs') and node.args:
        yield u(node.args[0])
      if name == 'dataclasses.replace' and node.keywords:
        # The given one is changed.
        fields = ', '.join(
            f'object.__setattr__(_x, {k.arg!r}, {u(k.value)})' for k in node.keywords if k.arg)
        yield f'[_x := {u(node.args[0])}, {fields}][0]'
    elif isinstance(node, (ast.List, ast.Dict)) and isinstance(node.ctx if isinstance(
        node, ast.List) else ast.Load(), ast.Load) and not (
            node.elts if isinstance(node, ast.List) else node.keys):
      # Kept from one call to the next.
      yield f"globals().setdefault('_kept_{node.lineno}_{node.col_offset}', {u(node)})"
    elif isinstance(node, ast.Raise):
      yield 'pass'
    elif isinstance(node, ast.ExceptHandler):
      pass

  def swaps(node):
    """Neighbouring statements in the other order."""
    simple = (ast.Assign, ast.AugAssign, ast.Expr)
    for field in ('body', 'orelse', 'finalbody'):
      block = getattr(node, field, None)
      if not isinstance(block, list):
        continue
      for a, b in zip(block, block[1:]):
        if not isinstance(a, simple) or not isinstance(b, simple) or skipped(
            getattr(a, 'value', a)) or skipped(getattr(b, 'value', b)):
          continue
        if isinstance(a, ast.Expr) and isinstance(a.value, ast.Constant):
          continue
        stored = {n.id for n in ast.walk(a) if isinstance(n, ast.Name) and isinstance(
            n.ctx, ast.Store)}
        if stored & {n.id for n in ast.walk(b) if isinstance(n, ast.Name)}:
          continue
        if not any(isinstance(s, ast.Expr) or any(
            isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store)
            for n in ast.walk(s)) for s in (a, b)):
          continue
        yield a, b, ast.unparse(b) + '; ' + ast.unparse(a)

  def walk(node, doc=False):
    if second:
      if skipped(node) and not isinstance(node, ast.Raise):
        return
      if isinstance(node, (ast.expr, ast.stmt)):
        for text in quiet(node):
          yield node, text
      if not isinstance(node, (ast.ClassDef, ast.Module)):
        for a, b, text in swaps(node):
          both = ast.Pass(lineno=a.lineno, col_offset=a.col_offset, end_lineno=b.end_lineno,
                          end_col_offset=b.end_col_offset)
          yield both, text
    elif skipped(node):
      return
    elif isinstance(node, (ast.expr, ast.stmt, ast.Slice)) and hasattr(node, 'lineno'):
      for text in variants(node):
        yield node, text
    if isinstance(node, ast.If) and not second:
      yield node.test, 'not (' + ast.unparse(node.test) + ')'
    for field, value in ast.iter_fields(node):
      if field in ('annotation', 'returns', 'decorator_list', 'type_params', 'bases'):
        continue
      for child in value if isinstance(value, list) else [value]:
        if isinstance(child, ast.AST):
          if isinstance(node, (ast.AnnAssign, ast.arg)) and field == 'annotation':
            continue
          yield from walk(child)

  seen = set()
  for node, text in walk(tree):
    out = replace(node, text)
    if out in seen:
      continue
    seen.add(out)
    try:
      if ast.dump(ast.parse(out)) == ast.dump(tree):
        continue
    except SyntaxError:
      continue
    old = ast.get_source_segment(source, node)
    yield node.lineno, f'{old} -> {text}', out


def chosen(files):
  for spec in files:
    name, _, limit = spec.partition(':')
    source = open(f'/repo/putting_dune/{name}').read()
    found = [m for m in mutants(source)]
    random.Random(name).shuffle(found)
    for line, what, out in found[:int(limit or 10**6)]:
      yield name, line, what, out


def child(name, source, slot, seconds, out):
  """Runs in a forked process."""
  from mc import boot, core
  start = time.time()
  root = slot
  with open(f'{root}/putting_dune/{name}', 'w') as f:
    f.write(source)
  boot.REPO = root
  os.environ['PD_REPO'] = root
  tempfile.tempdir = os.environ['TMPDIR'] = root + '/tmp'
  boot.boot()
  import importlib
  result = {'killed': None, 'cases': 0, 'of': 0}
  def say():
    with open(out, 'w') as f:
      json.dump(result, f)
  say()
  todo = {}
  shared = {}
  for prop in ('C' + n for n in CHECKS[name].split()):
    try:
      module = importlib.import_module('checks.' + prop.lower())
      cases = list(module.cases('quick'))
    except Exception as e:  # pylint: disable=broad-except
      result['killed'] = f'{prop} import {type(e).__name__}'
      say()
      return
    random.Random(1).shuffle(cases)
    shared[prop] = module, core.Context(prop, 'quick', 1)
    todo[prop] = cases
    result['of'] += len(cases)
  spent = dict.fromkeys(todo, 0)
  while any(todo.values()):
    # The checks get equal times.
    prop = min((p for p in todo if todo[p]), key=spent.get)
    case = todo[prop].pop()
    module, ctx = shared[prop]
    before = time.time()
    bad = core.run_cases(module, ctx, [case])
    spent[prop] = spent.get(prop, 0) + time.time() - before
    result['cases'] += 1
    result['spent'] = spent
    if bad is not None:
      result['killed'] = f'{prop} {bad[1]}'
      result['time'] = time.time() - start
      result['message'] = str(bad[2])[-300:]
      say()
      return
    result['left'] = {p: len(c) for p, c in todo.items() if c}
    if result['cases'] % 20 == 0 or spent[prop] > 1:
      say()
  result['done'] = True
  say()


def main():
  out, seconds, files = sys.argv[1], float(sys.argv[2]), sys.argv[3:]
  if files == ['count']:
    for name in files and CHECKS:
      print(name, len(list(mutants(open(f'/repo/putting_dune/{name}').read()))))
    return
  import warnings
  warnings.filterwarnings('ignore')
  # What takes long to import, before forking.
  import numpy, scipy, scipy.stats, sklearn, sklearn.cluster, matplotlib.pyplot, cv2, dm_env, skimage  # pylint: disable=all
  import skimage.exposure, sklearn.gaussian_process, sklearn.mixture, sklearn.neighbors, sklearn.model_selection
  import jax, jax.numpy, haiku, flax, flax.linen, optax, seaborn, pandas, tensorflow, PIL.Image
  workers = int(os.environ.get('MUT_WORKERS', '8'))
  base = tempfile.mkdtemp(prefix='pdmut_')
  os.chmod(base, 0o755)
  done = set()
  if os.path.exists(out):
    done = {(r['file'], r['line'], r['what']) for r in map(json.loads, open(out))}
  queue = [m for m in chosen(files) if m[:3] not in done]
  only = os.environ.get('MUT_ONLY')
  if only:
    wanted = {tuple(x) for x in json.load(open(only))}
    queue = [m for m in queue if m[:3] in wanted]
  print(len(queue), 'mutants', flush=True)
  slots = []
  for k in range(workers):
    slot = f'{base}/{k}'
    os.makedirs(slot)
    slots.append(slot)
  running = {}
  free = list(slots)
  try:
    while queue or running:
      while queue and free:
        name, line, what, source = queue.pop(0)
        slot = free.pop()
        shutil.rmtree(slot)
        shutil.copytree('/repo', slot, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        os.makedirs(slot + '/tmp')
        result = slot + '.json'
        pid = os.fork()
        if pid == 0:
          try:
            os.setpgid(0, 0)
            # Mutants must not reach anything but their own folder.
            os.chdir(slot)
            os.environ.update(HOME=slot, XDG_CACHE_HOME=slot, MPLCONFIGDIR=slot)
            for where, _, names in os.walk(slot):
              for path in [where] + [os.path.join(where, n) for n in names]:
                os.chown(path, 65534, 65534)
            open(result, 'w').close()
            os.chown(result, 65534, 65534)
            err = os.open(slot + '.err', os.O_CREAT | os.O_TRUNC | os.O_WRONLY)
            os.setgid(65534)
            os.setuid(65534)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 1)
            os.dup2(err, 2)
            child(name, source, slot, seconds, result)
          except BaseException:  # pylint: disable=broad-except
            import traceback
            with open(result, 'w') as f:
              json.dump({'killed': 'crash', 'message': traceback.format_exc()[-600:]}, f)
          finally:
            os._exit(0)
        running[pid] = (slot, result, name, line, what, time.time())
      for pid, (slot, result, name, line, what, since) in list(running.items()):
        over = time.time() - since > seconds
        if over:
          try:
            os.kill(-pid, signal.SIGKILL)
          except ProcessLookupError:
            pass
        got, _ = os.waitpid(pid, 0 if over else os.WNOHANG)
        if got:
          del running[pid]
          free.append(slot)
          try:
            r = json.load(open(result))
          except Exception:  # pylint: disable=broad-except
            r = {'killed': 'died'}
          if os.path.exists(result):
            os.unlink(result)
          r.update(file=name, line=line, what=what, wall=round(time.time() - since, 1))
          with open(out, 'a') as f:
            f.write(json.dumps(r) + '\n')
      time.sleep(0.05)
  finally:
    shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
  main()
