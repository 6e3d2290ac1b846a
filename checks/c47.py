"""C47: networks are packaged and loaded whole."""

import contextlib
import io
import itertools
import os
import shutil
import tempfile
import types
from unittest import mock
import zipfile

import numpy as np

from checks import c48
from mc import boot
from mc import stubs
from mc import util

PROPERTY = 'C47'
LEVEL = 'fault_enumeration'
RULE = (
    'packaging: every order of quality of three checkpoints, kind of network,'
    ' name, kind of path and existing target; loading: a failure before and in'
    ' the middle of every operation on files, with the process surviving or not,'
    ' for a first load and for a reload, followed by every sequence of further'
    ' loads. A state is the combination.'
)
ASSUMPTIONS = [
    'checkpoints are kept by a stand-in which follows the documentation of orbax',
    'linear models in the place of the networks',
    'renaming a directory is atomic, writing a file is not',
]


def cases(tier):
  deep = tier != 'quick'
  for kind in ('aligner', 'aligner frames', 'detector'):
    for order in itertools.permutations(range(3)):
      yield {'kind': 'package', 'net': kind, 'order': list(order)}
    for target, place in itertools.product(('none', 'kept', 'replaced', 'unnamed'),
                                           ('absolute', 'relative')):
      yield {'kind': 'target', 'net': kind, 'target': target, 'place': place}
    yield {'kind': 'through', 'net': kind}
  yield {'kind': 'wrapped'}
  for loader, old, killed in itertools.product(
      ('aligner', 'detector', 'agent'), (False, True), (False, True)):
    if loader == 'aligner' or not old:
      for part in range(4):
        yield {'kind': 'faults', 'loader': loader, 'old': old, 'killed': killed, 'part': part,
               'depth': 3 if deep else 2}
  for loader in ('aligner', 'detector', 'agent'):
    yield {'kind': 'torn', 'loader': loader}


def run_case(ctx, case):
  stubs.grain()
  out = io.StringIO()
  here = os.getcwd()
  try:
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
      globals()[case['kind']](ctx, case)
  finally:
    os.chdir(here)


# --- Packaging --------------------------------------------------------------

SEQUENCE = 3


class Packager:
  """One of the scripts that package a network, with its stand-ins."""

  def __init__(self, kind, size=8):
    both, local = c48.networks()
    self.kind = kind
    self.size = size
    self.disk = stubs.Disk()
    if kind == 'detector':
      from putting_dune.atom_detection import save_model as module

      self.patches = [(module.unet, 'UNet', local)]
      self.shapes = {'local': (1, 3)}
      self.options = {'input_shape': (size, size, 1)}
    else:
      from putting_dune.image_alignment import save_model as module

      final = kind == 'aligner'
      self.patches = [(module.unet, 'GlobalLocalUNet', both)]
      shown = 1 if final else SEQUENCE
      moves = 1 if final else SEQUENCE - 1
      self.shapes = {'local': (SEQUENCE, 3 * shown), 'global': (SEQUENCE, 2 * moves)}
      self.options = {'image_size': (size, size), 'sequence_length': SEQUENCE,
                      'final_step_only': final}
    self.module = module

  def params(self, step, wrap=False):
    out = {k: (c48.pattern(v) + 0.125 * step).astype(np.float32) for k, v in self.shapes.items()}
    return {'params': {k: {'kernel': {'value': v} if wrap else v} for k, v in out.items()}}

  def checkpoints(self, quality, wrap=False):
    """Saves checkpoints, the one of highest quality being the best."""
    manager = self.disk.manager('/work')
    for step, q in enumerate(quality):
      # The accuracy only counts for the detector, the losses for the aligner.
      if self.kind == 'detector':
        metrics = {'eval/accuracy': 0.5 + 0.1 * q}
      else:
        metrics = {'eval/accuracy': 0.9 - 0.1 * q, 'eval/loss': 1.0 - 0.25 * q,
                   'eval/drift_error': 2.0 - 0.1 * q}
      manager.save(step, {'params': self.params(step, wrap), 'step': step, 'opt_state': {},
                          'metrics': {}}, metrics=metrics)

  def save(self, **options):
    from etils import epath

    patches = self.patches + [(self.module.checkpoint, 'CheckpointManager', self.disk.manager)]
    kept = [(o, n, getattr(o, n)) for o, n, _ in patches]
    for o, n, v in patches:
      setattr(o, n, v)
    try:
      self.module.save(self.module.Config(workdir=epath.Path('/work'), **self.options, **options))
    finally:
      for o, n, v in kept:
        setattr(o, n, v)

  def image(self, i=0):
    channels = 1 if self.kind == 'detector' else SEQUENCE
    k = np.arange(self.size * self.size * channels).reshape(self.size, self.size, channels)
    return ((k * 7 + i) % 13 / 13.0).astype(np.float32)

  def outputs(self, step, image):
    p = {k: v['kernel'] for k, v in self.params(step)['params'].items()}
    if self.kind == 'detector':
      return [image / 255.0 @ p['local']]
    return [image @ p['local'], image.mean((0, 1)) @ p['global']]

  def load(self, path, root):
    """Loads the package the way it is used."""
    from etils import epath

    if self.kind == 'detector':
      return load_detector('file://' + path, root)
    from putting_dune import alignment

    return alignment.ImageAligner.from_path(epath.Path(path), workdir=root)

  def predict(self, loaded, image):
    name = 'preprocessed_inputs_0' if self.kind == 'detector' else 'image'
    out = loaded.model.signatures['serving_default'](**{name: image})
    return [np.asarray(out[f'output_{i}']) for i in range(len(out))]


def load_detector(url, root):
  from etils import epath
  from putting_dune import atom_detector

  keep = epath.resource_path
  epath.resource_path = lambda name: epath.Path(root)
  try:
    return atom_detector.AtomDetector.from_url(url)
  finally:
    epath.resource_path = keep


def same_outputs(ctx, packager, path, step, where):
  loaded = packager.load(path, boot.scratch_dir())
  for i in range(2):
    image = packager.image(i)
    got = packager.predict(loaded, image)
    want = packager.outputs(step, image)
    ctx.check(len(got) == len(want) and all(
        g.shape == w.shape and np.abs(g - w).max() < 1e-4 for g, w in zip(got, want)),
        'package:outputs', lambda: f'{where}: {[g.ravel()[:4] for g in got]}')


def package(ctx, case):
  """The best checkpoint is the one that is packaged."""
  packager = Packager(case['net'])
  packager.checkpoints(case['order'])
  from etils import epath

  target = boot.scratch_dir()
  packager.save(save_path=epath.Path(target), model_name='some.zip')
  ctx.check(os.listdir(target) == ['some.zip'], 'package:files', f'{os.listdir(target)}')
  same_outputs(ctx, packager, os.path.join(target, 'some.zip'), case['order'].index(2), f'{case}')
  ctx.evaluated('package', case)


def wrapped(ctx, case):
  """Parameters of aligners may be wrapped in an extra layer."""
  from etils import epath

  for kind in ('aligner', 'aligner frames'):
    packager = Packager(kind)
    packager.checkpoints([1, 0], wrap=True)
    target = boot.scratch_dir()
    packager.save(save_path=epath.Path(target), model_name='some.zip')
    same_outputs(ctx, packager, os.path.join(target, 'some.zip'), 0, f'wrapped {kind}')
    ctx.evaluated('wrapped', kind)


def target(ctx, case):
  """Where the package goes, and what happens to what was there."""
  from etils import epath

  packager = Packager(case['net'])
  packager.checkpoints([0, 1])
  root = boot.scratch_dir()
  os.mkdir(os.path.join(root, 'out'))
  os.chdir(root)
  path = os.path.join(root, 'out', 'some.zip')
  where = f'{case}'
  if case['target'] in ('kept', 'replaced'):
    with open(path, 'w') as f:
      f.write('old')
  options = {'overwrite': case['target'] == 'replaced'}
  if case['target'] != 'unnamed':
    options['model_name'] = 'some.zip'
  before = sorted(os.listdir(tempfile.gettempdir()))
  save_path = epath.Path('out') if case['place'] == 'relative' else epath.Path(root) / 'out'
  failed = util.raises(lambda: packager.save(save_path=save_path, **options)) is not None
  ctx.check(os.path.realpath(os.getcwd()) == os.path.realpath(root), 'target:directory', where)
  ctx.check(sorted(os.listdir(root)) == ['out'], 'target:left', f'{where}: {os.listdir(root)}')
  found = os.listdir(os.path.join(root, 'out'))
  ctx.check(len(found) == 1, 'target:files', f'{where}: {found}')
  if case['target'] == 'kept':
    ctx.check(failed and open(path).read() == 'old', 'target:kept', where)
  else:
    ctx.check(not failed, 'target:failed', where)
    same_outputs(ctx, packager, os.path.join(root, 'out', found[0]), 1, where)
    if case['target'] == 'unnamed':
      kind = 'atom-detector' if case['net'] == 'detector' else 'image-aligner'
      ctx.check(found[0].endswith(f'{kind}.zip'), 'target:name', f'{found}')
  ctx.evaluated('target', case)


def through(ctx, case):
  """From the package to what the loaded network says about an image."""
  from etils import epath

  size = 256 if case['net'] == 'detector' else 512
  packager = Packager(case['net'], size)
  packager.checkpoints([0])
  root = boot.scratch_dir()
  packager.save(save_path=epath.Path(root), model_name='some.zip')
  loaded = packager.load(os.path.join(root, 'some.zip'), root)
  k = np.arange(size * size).reshape(size, size, 1)
  image = ((k * 7) % 13).astype(np.float32)
  if case['net'] == 'detector':
    grid = loaded(image)
    ctx.check(grid.atom_positions.shape[1:] == (2,), 'through:grid', f'{grid}')
  else:
    loaded.adaptive_normalization = False
    loaded.history_length = SEQUENCE
    _, drift, probs = loaded(image, util.fov(0, 0, 20, 20))
    stack = np.concatenate([np.zeros((size, size, SEQUENCE - 1)), image / 12.0], -1)
    logits, overall = packager.outputs(0, stack)
    logits = logits.reshape(size, size, -1, 3)[:, :, -1]
    want = np.exp(logits) / np.exp(logits).sum(-1, keepdims=True)
    ctx.check(util.close(drift, overall.reshape(-1, 2)[-1], 1e-3), 'through:drift', f'{drift}')
    ctx.check(np.abs(probs - want).max() < 1e-3, 'through:labels')
  ctx.evaluated('through', case)


@contextlib.contextmanager
def placed(root):
  """Models are kept below a folder, and agents are not built from them."""
  from etils import epath
  from putting_dune.experiments import registry

  with contextlib.ExitStack() as stack:
    for where, name, value in (
        (registry, '__file__', os.path.join(root, 'registry.py')),
        (epath, 'resource_path', lambda name: epath.Path(root)),
        (registry.tf_eval_agent, 'TfEvalAgent', lambda path: path)):
      stack.enter_context(mock.patch.object(where, name, value))
    yield


# --- Loading ----------------------------------------------------------------

FILES = {'saved_model.pb': 40, 'fingerprint.pb': 12, 'variables/variables.index': 25,
         'variables/variables.data': 64}
NAMES = {'aligner': 'image-alignment-model', 'detector': 'atom-detection-model',
         'agent': 'an-agent'}


def content(version, name):
  return (f'{version}:{name} ' * FILES[name])[:FILES[name]].encode()


def archive(path, loader, version):
  with zipfile.ZipFile(path, 'w') as z:
    for name in FILES:
      z.writestr(f'{NAMES[loader]}/{name}', content(version, name))


class Faults:
  """Fails at the operation with a given number, before or in the middle of it."""

  OPERATIONS = ((os, 'mkdir'), (os, 'rename'), (os, 'replace'), (os, 'rmdir'), (os, 'unlink'),
                (os, 'remove'), (shutil, 'copyfileobj'))

  def __init__(self, at, killed):
    self.at = at
    self.killed = killed
    self.count = 0

  def wrap(self, name, inner):
    def operation(*args, **kwargs):
      number = self.count
      self.count += 1
      if number == self.at:
        if name == 'copyfileobj':
          # Half of the file is there.
          data = args[0].read()
          args[1].write(data[:len(data) // 2])
          args[1].flush()
        raise stubs.Crash(f'{name} {number}') if self.killed else OSError(f'{name} {number}')
      return inner(*args, **kwargs)
    return operation

  def __enter__(self):
    self.kept = [(m, n, getattr(m, n)) for m, n in self.OPERATIONS]
    for m, n, inner in self.kept:
      setattr(m, n, self.wrap(n, inner))
    if self.killed:
      # Nothing is cleaned up after the process was killed.
      self.cleanup = tempfile.TemporaryDirectory.cleanup
      self.leave = tempfile.TemporaryDirectory.__exit__
      tempfile.TemporaryDirectory.__exit__ = lambda t, *a: (
          None if a[0] is stubs.Crash else self.leave(t, *a))
    return self

  def __exit__(self, *args):
    for m, n, inner in self.kept:
      setattr(m, n, inner)
    if self.killed:
      tempfile.TemporaryDirectory.__exit__ = self.leave


def load(loader, path, root, reload=False):
  """Loads; returns the version of the model, or why it is none."""
  with placed(root):
    return found(fetch(loader, path, root, reload))


def fetch(loader, path, root, reload=False):
  """Loads; returns where the model is."""
  from etils import epath

  if loader == 'detector':
    from putting_dune import atom_detector

    return atom_detector.AtomDetector.from_url('file://' + path).model_path
  if loader == 'agent':
    from putting_dune.experiments import registry

    return registry._TfAgentCreator('an-agent', 'file://' + path)(None, None)  # pylint: disable=protected-access
  from putting_dune import alignment

  return alignment.ImageAligner.from_path(
      epath.Path(path), workdir=root, reload=reload).model_path


def found(where):
  """The version of the model in a folder, or why it is none."""
  have = {}
  for directory, _, names in os.walk(where):
    for name in names:
      full = os.path.join(directory, name)
      with open(full, 'rb') as f:
        have[os.path.relpath(full, where)] = f.read()
  versions = [v for v in range(4) if have == {n: content(v, n) for n in FILES}]
  return versions[0] if versions else f'broken: {sorted(have)}'


def faults(ctx, case):
  """After a load that failed somewhere, later ones give a whole model."""
  loader = case['loader']
  at = case['part']
  while True:
    reached = False
    for rest in util.sequences((False, True) if loader == 'aligner' else (False,), case['depth'], 1):
      root = boot.scratch_dir()
      path = os.path.join(root, 'network.zip')
      work = os.path.join(root, 'work')
      os.mkdir(work)
      version, current = 0, None
      archive(path, loader, version)
      if case['old']:
        ctx.check(load(loader, path, work) == 0, 'load:first', f'{case}')
        current = {0}
        version = 1
        archive(path, loader, version)
      failed = False
      with Faults(at, case['killed']) as f:
        try:
          got = load(loader, path, work, reload=case['old'])
          ctx.check(got == version, 'load', f'{case} {at}: {got}')
          current = {version}
        except (stubs.Crash, OSError):
          failed = True
          # Now the old or the new one is there, or none.
          current = (current or set()) | {version, None}
      reached = reached or f.count > at
      for reload in rest:
        version += 1
        archive(path, loader, version)
        got = load(loader, path, work, reload)
        allowed = {version} if reload else {version if v is None else v for v in current}
        ctx.check(got in allowed, 'load:broken' if isinstance(got, str) else 'load:version',
                  f'{case} failing at {at}, then {rest}: {got} instead of {allowed}')
        current = {got}
      ctx.evaluated('faults', loader, case['old'], case['killed'], at, rest)
      ctx.outcome('failed' if failed else 'succeeded')
      shutil.rmtree(root)
    if not reached:
      break
    at += 4


def torn(ctx, case):
  """An archive that is cut off anywhere, or whose bytes are changed, is not loaded."""
  loader = case['loader']
  root = boot.scratch_dir()
  path = os.path.join(root, 'network.zip')
  archive(path, loader, 0)
  with open(path, 'rb') as f:
    whole = f.read()
  for n in range(0, len(whole), 1 if ctx.deep else 5):
    work = os.path.join(root, f'work{n}')
    os.mkdir(work)
    with open(path, 'wb') as f:
      f.write(whole[:n])
    failed = util.raises(lambda: load(loader, path, work)) is not None
    ctx.check(failed, 'torn:accepted', f'{case} {n} of {len(whole)} bytes')
    with open(path, 'wb') as f:
      f.write(whole)
    got = load(loader, path, work)
    ctx.check(got == 0, 'torn:broken', f'{case} after {n} of {len(whole)} bytes: {got}')
    ctx.evaluated('torn', loader, n)
    shutil.rmtree(work)
  # A missing archive.
  os.unlink(path)
  work = os.path.join(root, 'missing')
  os.mkdir(work)
  ctx.check(util.raises(lambda: load(loader, path, work)) is not None, 'torn:missing')
  archive(path, loader, 2)
  ctx.check(load(loader, path, work) == 2, 'torn:after')
  ctx.evaluated('missing', loader)
