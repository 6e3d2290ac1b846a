"""C50: processes that load the same model at the same time."""

import builtins
import contextlib
import io
import os
import shutil
import tempfile
import threading

from checks import c47
from mc import boot
from mc import core
from mc import stubs

PROPERTY = 'C50'
LEVEL = 'model_checking'
RULE = (
    'for every kind of model and number of processes: every schedule, up to the'
    ' number of preemptions and kills, of the operations on files of processes'
    ' that load the same model for the first time, or one of which reloads it,'
    ' run on the real loaders, followed by one more load. A state is what the'
    ' folder of models and each process had at a switch.'
)
ASSUMPTIONS = [
    'processes are threads that only switch at operations on files; a file is'
    ' written in two halves',
    'a model is read in one step once its loader returned',
]

# (processes, reloads, preemptions or kills, with kills)
QUICK = ((2, 0, 2, False), (2, 0, 1, True), (3, 0, 1, False), (2, 1, 2, False))
THOROUGH = ((2, 0, 3, False), (2, 0, 2, True), (3, 0, 2, False), (2, 1, 3, False),
            (2, 2, 2, False), (3, 1, 2, True))


def cases(tier):
  for loader in ('aligner', 'detector', 'agent'):
    for n, reloads, bound, kills in QUICK if tier == 'quick' else THOROUGH:
      if not reloads or loader == 'aligner':
        for part in range(8):
          yield {'loader': loader, 'n': n, 'reloads': reloads, 'bound': bound,
                 'kills': kills, 'part': part}


class Process:
  """A thread that runs until its next operation on files when it is told to."""

  def __init__(self, schedule, body):
    self.go = threading.Semaphore(0)
    self.killed = self.done = self.reading = False
    self.result = self.error = None
    self.schedule = schedule

    def main():
      self.go.acquire()
      try:
        if not self.killed:
          self.result = body()
      except stubs.Crash:
        pass
      except BaseException as e:  # pylint: disable=broad-except
        self.error = e
      self.done = True
      schedule.back.release()

    self.thread = threading.Thread(target=main, daemon=True)
    self.thread.start()

  def point(self):
    """Waits for its turn before an operation on files."""
    if self.reading:
      return
    self.schedule.back.release()
    self.go.acquire()
    if self.killed:
      raise stubs.Crash()


class Schedule:
  """Runs processes one at a time, switching where the chooser says."""

  OPERATIONS = ((os, 'mkdir'), (os, 'rename'), (os, 'replace'), (os, 'rmdir'), (os, 'unlink'),
                (os, 'remove'), (os, 'stat'), (os, 'scandir'), (os, 'open'),
                (builtins, 'open'))

  def __init__(self, root, bodies):
    self.back = threading.Semaphore(0)
    self.root = root
    self.processes = [Process(self, b) for b in bodies]
    self.by_thread = {p.thread: p for p in self.processes}

  def current(self, path):
    process = self.by_thread.get(threading.current_thread())
    if process is None or not isinstance(path, (str, os.PathLike)):
      return None
    return process if os.fspath(path).startswith(self.root) else None

  def wrap(self, inner):
    def operation(path, *args, **kwargs):
      process = self.current(path)
      if process is not None:
        process.point()
      return inner(path, *args, **kwargs)
    return operation

  def copy(self, source, target, *args):
    process = self.by_thread.get(threading.current_thread())
    if process is None:
      return self.copyfileobj(source, target, *args)
    data = source.read()
    for part in (data[:len(data) // 2], data[len(data) // 2:]):
      target.write(part)
      target.flush()
      process.point()

  def __enter__(self):
    self.kept = [(m, n, getattr(m, n)) for m, n in self.OPERATIONS]
    self.copyfileobj, shutil.copyfileobj = shutil.copyfileobj, self.copy
    for m, n, inner in self.kept:
      setattr(m, n, self.wrap(inner))
    self.leave = tempfile.TemporaryDirectory.__exit__
    # Nothing is cleaned up after a process was killed.
    tempfile.TemporaryDirectory.__exit__ = lambda t, *a: (
        t._finalizer.detach() if a[0] is stubs.Crash else self.leave(t, *a)) and None
    return self

  def __exit__(self, *args):
    for m, n, inner in self.kept:
      setattr(m, n, inner)
    shutil.copyfileobj = self.copyfileobj
    tempfile.TemporaryDirectory.__exit__ = self.leave

  def run(self, chooser, kills, note):
    at = 0
    steps = 0
    while True:
      ready = [i for i, p in enumerate(self.processes) if not p.done]
      if not ready:
        return steps
      options = ready[ready.index(at):] + ready[:ready.index(at)] if at in ready else ready
      extra = kills and not any(p.killed for p in self.processes)
      k = chooser.choose('switch', len(options) + extra) if len(options) + extra > 1 else 0
      if k == len(options):
        k = 0
        self.processes[options[0]].killed = True
      if k or at not in ready:
        note()
      at = options[k]
      self.processes[at].go.release()
      self.back.acquire()
      steps += 1


def content_of(root):
  out = []
  for directory, names, files in os.walk(root):
    names.sort()
    for f in sorted(files):
      full = os.path.join(directory, f)
      out.append((os.path.relpath(directory, root)[:30] if 'tmp' not in directory else 'tmp', f,
                  os.path.getsize(full)))
  return tuple(out)


def run_case(ctx, case):
  out = io.StringIO()
  with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
    for taken in core.explore(lambda chooser: history(ctx, case, chooser),
                              deviations=case['bound'], shard=(case['part'], 8)):
      ctx.trace()


def history(ctx, case, chooser):
  loader = case['loader']
  root = boot.scratch_dir()
  path = os.path.join(root, 'network.zip')
  work = os.path.join(root, 'work')
  os.mkdir(work)
  c47.archive(path, loader, 0)
  old = bool(case['reloads'])
  if old:
    assert c47.load(loader, path, work) == 0
    c47.archive(path, loader, 1)

  def body(i):
    where = c47.fetch(loader, path, work, reload=i < case['reloads'])
    schedule.processes[i].reading = True
    return c47.found(where)

  with c47.placed(work):
    schedule = Schedule(root, [lambda i=i: body(i) for i in range(case['n'])])
    with schedule:
      def note():
        ctx.state(case['n'], case['reloads'], content_of(work),
                  tuple((p.done, p.killed) for p in schedule.processes))
      steps = schedule.run(chooser, case['kills'], note)
  for _ in range(steps):
    ctx.step()
  got = [p.result for p in schedule.processes]
  errors = [p.error for p in schedule.processes]
  where = lambda: f'{case} {chooser.taken}: {got} {errors}'
  for i, p in enumerate(schedule.processes):
    if p.killed:
      continue
    if old and p.error is not None:
      # A reload takes away what another one is about to read.
      ctx.check(isinstance(p.error, OSError), 'concurrent:error', where)
      continue
    if old and p.result == 'broken: []':
      continue
    ctx.check(p.error is None, 'concurrent:failed', where)
    ctx.check(p.result in ((0, 1) if old else (0,)), 'concurrent:broken', where)
    if i < case['reloads']:
      ctx.check(p.result == 1, 'concurrent:reload', where)
  ctx.check(c47.load(loader, path, work) in ((0, 1) if old else (0,)), 'concurrent:after', where)
  ctx.outcome('killed' if any(p.killed for p in schedule.processes) else 'whole')
  shutil.rmtree(root)
