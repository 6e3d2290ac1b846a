"""Writes a planted bug: plant(id, property, needs, breaks, edits, demo)."""
import json, os, subprocess, tempfile, shutil
REPO = os.environ.get('PD_REPO', '/repo')
ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')

DEMO_SH = '''#!/bin/bash
# Run with cwd = the repository, after the build.
export JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH=$PWD exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def plant(bug, prop, needs, breaks, edits, demo):
  work = tempfile.mkdtemp(prefix='plant_')
  try:
    subprocess.run(['git', '-C', REPO, 'worktree', 'prune'], check=True)
    subprocess.run(f'git -C {REPO} archive HEAD | tar -x -C {work}', shell=True, check=True)
    run = lambda *a: subprocess.run(a, cwd=work, check=True, capture_output=True, text=True).stdout
    run('git', 'init', '-q'); run('git', 'add', '-A')
    run('git', '-c', 'user.name=x', '-c', 'user.email=x@x', 'commit', '-qm', 'x')
    for path, old, new in edits:
      full = os.path.join(work, 'putting_dune', path)
      text = open(full).read()
      assert text.count(old) == 1, (bug, path, text.count(old), old)
      open(full, 'w').write(text.replace(old, new))
    diff = run('git', 'diff')
    run('/usr/bin/python3', '-m', 'compileall', '-q', 'putting_dune')
  finally:
    shutil.rmtree(work)
  out = os.path.join(ROOT, bug)
  os.makedirs(out, exist_ok=True)
  for name, text in (('patch.diff', diff), ('demo.sh', DEMO_SH), ('demo.py', demo),
                     ('meta.json', json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')):
    with open(os.path.join(out, name), 'w') as f:
      f.write(text)
  os.chmod(os.path.join(out, 'demo.sh'), 0o755)
