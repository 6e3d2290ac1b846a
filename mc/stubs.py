"""Stand-ins for packages that are not installed, and for parts of the outside.

grain (data loading), riegeli (record files of uploads) are not installed, and
the installed orbax and clu do not fit the installed jax. The code of the
repository that uses them only needs the little that is here.
"""

import copy
import sys
import types

# taken counts the batches that were taken from training and test data; the one
# with the number crash_at ends the process.
GRAIN = types.SimpleNamespace(loaders=[], source=None, updates=[], taken=[], crash_at=None)


def grain():
  """Installs a grain.tensorflow with a loader on top of GRAIN.source.

  GRAIN.source(name, split) gives a list of dictionaries of arrays. A loader
  applies the transformations, batches, and repeats forever.
  """
  if 'grain' in sys.modules:
    return

  class MapTransform:

    def map(self, features):
      raise NotImplementedError

  class ShardByJaxProcess:

    def __init__(self, drop_remainder=False):
      self.drop_remainder = drop_remainder

  class Dataset:

    def __init__(self, dataset, split):
      self.dataset = dataset
      self.split = split
      self.element_spec = dataset.element_spec

    def as_numpy_iterator(self):
      for batch in self.dataset.as_numpy_iterator():
        if len(GRAIN.taken) == GRAIN.crash_at:
          raise Crash(f'at batch {GRAIN.crash_at}')
        GRAIN.taken.append(self.split)
        yield batch

  class Loader:

    def __init__(self, **options):
      self.options = options

    def as_dataset(self, start_index):
      import tensorflow as tf

      self.start_index = start_index
      records = GRAIN.source(self.options['name'], self.options['split'])
      stacked = {k: tf.stack([tf.constant(r[k]) for r in records]) for k in records[0]}
      ds = tf.data.Dataset.from_tensor_slices(stacked)
      for t in self.options['transformations']:
        ds = ds.map(t.map)
      ds = ds.repeat()
      if self.options['batch_size']:
        ds = ds.batch(self.options['batch_size'], drop_remainder=True)
      return Dataset(ds, self.options['split'])

  def load_from_tfds(**options):
    loader = Loader(**options)
    GRAIN.loaders.append(loader)
    return loader

  package = types.ModuleType('grain')
  module = types.ModuleType('grain.tensorflow')
  module.MapTransform = MapTransform
  module.ShardByJaxProcess = ShardByJaxProcess
  module.load_from_tfds = load_from_tfds
  module.config = types.SimpleNamespace(update=lambda *a: GRAIN.updates.append(a))
  package.tensorflow = module
  package.__path__ = []
  sys.modules['grain'] = package
  sys.modules['grain.tensorflow'] = module


class Crash(BaseException):
  """The process ends here."""


class Disk:
  """What survives a crash: {directory: {step: (items, metrics)}}."""

  def __init__(self):
    self.saved = {}
    self.log = []
    self.crash_before = None  # The number of the save that does not happen.
    self.crash_after = None

  def manager(self, directory, *unused, options=None, metadata=None, **unused2):
    return Manager(self, str(directory), options, metadata)


def tree_copy(x):
  """The nested dictionaries of arrays that a checkpoint holds."""
  import flax.serialization
  import jax
  import numpy as np

  x = flax.serialization.to_state_dict(x)
  return jax.tree_util.tree_map(lambda v: np.array(v), x)


class Manager:
  """A checkpoint manager which keeps to the documentation of orbax.

  A step that is not newer than the latest is not saved; the best step is the
  one with the highest value of best_fn, of those with metrics; a checkpoint is
  either there as a whole or not at all.
  """

  def __init__(self, disk, directory, options, metadata):
    self.disk = disk
    self.steps = disk.saved.setdefault(directory, {})
    self.options = options
    self.metadata = metadata

  def latest_step(self):
    return max(self.steps) if self.steps else None

  def all_steps(self):
    return sorted(self.steps)

  def best_step(self):
    rated = {s: self.options.best_fn(m) for s, (_, m) in self.steps.items() if m is not None}
    if not rated:
      return self.latest_step()
    return max(rated, key=lambda s: (rated[s], s))

  def save(self, step, items, metrics=None, **unused):
    number = len(self.disk.log)
    if self.disk.crash_before == number:
      raise Crash(f'before save {number}')
    saved = self.latest_step() is None or step > self.latest_step()
    if saved:
      self.steps[step] = (tree_copy(items), copy.deepcopy(metrics))
    self.disk.log.append((step, saved))
    if self.disk.crash_after == number:
      raise Crash(f'after save {number}')
    return saved

  def restore(self, step, items=None, restore_kwargs=None, **unused):
    import flax.serialization

    saved = copy.deepcopy(self.steps[step][0])
    if items is None:
      return saved
    return flax.serialization.from_state_dict(items, saved)


class Writer:
  """A metric writer that records."""

  def __init__(self):
    self.scalars = []

  def write_scalars(self, step, scalars):
    self.scalars.append((step, dict(scalars)))

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    return lambda *a, **k: None
