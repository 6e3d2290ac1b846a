"""C45: datasets of images, masks and displacements."""

import itertools

import numpy as np

from mc import stubs
from mc import util

PROPERTY = 'C45'
LEVEL = 'exploration'
RULE = (
    'every combination of the size of the images, the size asked for, the number of'
    ' frames, the batch size and whether only the last frame counts; the images'
    ' number their pixels, and the masks spell the same numbers in three digits,'
    ' so that the source of every pixel is known. A state is the combination.'
)
ASSUMPTIONS = [
    'records are loaded by a stand-in for grain, which is not installed; it applies'
    ' the transformations that it is given and batches',
    'masks hold 0 and the atomic numbers of carbon and silicon',
]

SIZES = ((1, 1), (2, 2), (3, 3), (4, 4), (6, 6), (2, 4), (4, 2), (5, 3), (8, 8))
TARGETS = (1, 2, 3, 4, 6, 8)


def cases(tier):
  deep = tier != 'quick'
  for size, target in itertools.product(SIZES, TARGETS):
    for frames, final in itertools.product((1, 2, 3) if not deep else (1, 2, 3, 5), (True, False)):
      yield {'kind': 'alignment', 'size': list(size), 'target': target, 'frames': frames,
             'final': final}
    yield {'kind': 'detection', 'size': list(size), 'target': target}
  yield {'kind': 'graphs'}
  yield {'kind': 'shards'}


def run_case(ctx, case):
  stubs.grain()
  stubs.GRAIN.loaders.clear()
  globals()[case['kind']](ctx, case)


LABELS = np.array([0, 6, 14], np.uint8)
DIGITS = 4


def masks(number, digit):
  """Mask whose label is a digit of the number of the pixel."""
  return LABELS[number // 3**digit % 3]


def decode(one_hots):
  """The numbers of the pixels, from the one-hot masks of each digit."""
  return sum(h.argmax(-1) * 3**d for d, h in enumerate(one_hots))


def covers(ctx, number, size, target, where):
  """Each pixel shows a source pixel which its centre lies in."""
  rows, columns = np.divmod(number, size[1])
  for i, (got, n) in enumerate(((rows, size[0]), (columns, size[1]))):
    centre = (np.arange(target) + 0.5) * n / target
    centre = centre[:, None] if i == 0 else centre[None]
    ctx.check(bool(np.all((got <= centre + 1e-6) & (centre <= got + 1 + 1e-6))), 'resized',
              lambda: f'{where}: pixels {number.tolist()}')


def alignment(ctx, case):
  from putting_dune.image_alignment import dataset

  (height, width), target, frames = case['size'], case['target'], case['frames']
  number = np.arange(height * width).reshape(height, width)
  # The frames show the numbers in different orders of their own.
  orders = [np.roll(number, t).reshape(height, width) for t in range(frames)]
  records = {}
  for split in ('train', 'test'):
    # The splits differ in the displacements; one record for each digit.
    records[split] = [{
        'images': np.stack([o * 3 + t for t, o in enumerate(orders)])[..., None].astype(np.uint8),
        'mask': np.stack([masks(o, d) for o in orders])[..., None].astype(np.uint8),
        'drift': np.array([[t + d, -t - (split == 'test')] for t in range(frames)], np.float32),
    } for d in range(DIGITS)]
  stubs.GRAIN.source = lambda name, split: records[split]
  config = dataset.ImageAlignmentDatasetConfig(
      data_dir='somewhere', batch_size=DIGITS, image_size=target, final_only=case['final'])
  for split, ds in zip(('train', 'test'), dataset.make_dataset(config, seed=17)):
    where = f'{case} {split}'
    batch = next(ds.as_numpy_iterator())
    shown = range(frames)[-1:] if case['final'] else range(frames)
    if not ctx.check(batch['images'].shape == (DIGITS, target, target, frames)
                     and batch['mask'].shape == (DIGITS, target, target, len(shown), 3)
                     and batch['drift'].shape == (DIGITS, len(shown), 2), 'shape',
                     lambda: f"{where}: {({k: v.shape for k, v in batch.items()})}"):
      continue
    ctx.check(bool(np.all(batch['mask'].sum(-1) == 1)), 'one hot', where)
    ctx.check(np.array_equal(batch['drift'], np.stack([r['drift'][list(shown)]
                                                       for r in records[split]])),
              'drift', lambda: f"{where}: {batch['drift'].tolist()}")
    images = batch['images'].astype(float) * 255
    for d in range(DIGITS):
      pixels = [np.round((images[d, ..., t] - t) / 3).astype(int) for t in range(frames)]
      exact = all(np.abs(p * 3 + t - images[d, ..., t]).max() < 1e-3
                  for t, p in enumerate(pixels))
      if not ctx.check(exact, 'frames', lambda: f'{where}: {images[d].tolist()}'):
        return
    for k, t in enumerate(shown):
      named = decode(batch['mask'][:, :, :, k])
      ctx.check(np.array_equal(named, pixels[t]), 'aligned',
                lambda: f'{where}: frame {t} shows {pixels[t].tolist()}, the mask {named.tolist()}')
    for t in range(frames):
      covers(ctx, where_is(pixels[t], orders[t]), (height, width), target, where)
    ctx.evaluated('alignment', case, split)
  loaders(ctx, 'image_alignment', DIGITS)


def where_is(pixels, order):
  """The place in the source of the numbers that are shown."""
  place = np.empty(order.size, int)
  place[order.ravel()] = np.arange(order.size)
  return place[pixels]


def detection(ctx, case):
  from putting_dune.atom_detection import dataset

  (height, width), target = case['size'], case['target']
  number = np.arange(height * width).reshape(height, width)
  records = [{
      'image': number[..., None].astype(np.uint8),
      'mask': masks(number, d)[..., None].astype(np.uint8),
  } for d in range(DIGITS)]
  stubs.GRAIN.source = lambda name, split: records if split == 'train' else records[::-1]
  config = dataset.AtomDetectionDatasetConfig(
      data_dir='somewhere', batch_size=DIGITS, image_size=target)
  for split, ds in zip(('train', 'test'), dataset.make_dataset(config, seed=17)):
    where = f'{case} {split}'
    batch = next(ds.as_numpy_iterator())
    if not ctx.check(batch['image'].shape == (DIGITS, target, target, 1)
                     and batch['mask'].shape == (DIGITS, target, target, 3), 'shape',
                     lambda: f"{where}: {({k: v.shape for k, v in batch.items()})}"):
      continue
    ctx.check(bool(np.all(batch['mask'].sum(-1) == 1)), 'one hot', where)
    named = decode(batch['mask'] if split == 'train' else batch['mask'][::-1])
    for d in range(DIGITS):
      pixels = np.asarray(batch['image'][d, ..., 0], float)
      ctx.check(np.array_equal(pixels, named), 'aligned',
                lambda: f'{where}: image {pixels.tolist()}, mask {named.tolist()}')
    covers(ctx, named, (height, width), target, where)
    ctx.evaluated('detection', case, split)
  loaders(ctx, 'atom_detection', DIGITS)


def loaders(ctx, name, batch_size, start=1):
  """What the loaders were asked for."""
  for loader, split in zip(stubs.GRAIN.loaders, ('train', 'test')):
    o = loader.options
    ctx.check((o['name'], o['split'], o['data_dir'], o['seed'], o['shuffle'], o['batch_size'])
              == (name, split, 'somewhere', 17, True, batch_size), 'loader', f'{o}')
    ctx.check(loader.start_index == start, 'start', f'{loader.start_index} instead of {start}')
  ctx.check(len(stubs.GRAIN.loaders) == 2, 'loaders', f'{len(stubs.GRAIN.loaders)}')


def graphs(ctx, case):
  """Graphs are passed through."""
  from putting_dune.graph_alignment import dataset

  for frames, nodes, size in itertools.product((1, 2, 3), (1, 2), (1, 2, 3)):
    stubs.GRAIN.loaders.clear()
    k = np.arange(frames * nodes * 2, dtype=np.float32).reshape(frames, nodes, 2)
    records = [{'positions': k + i, 'global_labels': k[:, 0] * i} for i in range(3)]
    stubs.GRAIN.source = lambda name, split: records if split == 'train' else records[::-1]
    config = dataset.GraphAlignmentDatasetConfig(data_dir='somewhere', batch_size=size)
    for split, ds in zip(('train', 'test'), dataset.make_dataset(config, seed=17)):
      got = list(itertools.islice(ds.as_numpy_iterator(), 3))
      rows = (records if split == 'train' else records[::-1]) * size
      for key in records[0]:
        want = np.stack([r[key] for r in rows])
        ctx.check(np.array_equal(np.concatenate([g[key] for g in got]), want), 'graphs', key)
      ctx.evaluated('graphs', frames, nodes, size, split)
    loaders(ctx, 'graph_alignment', size)


def shards(ctx, case):
  """Each of several processes starts at an index of its own."""
  import jax
  from putting_dune.image_alignment import dataset

  one = [{'images': np.zeros((1, 2, 2, 1), np.uint8), 'mask': np.zeros((1, 2, 2, 1), np.uint8),
          'drift': np.zeros((1, 2), np.float32)}]
  stubs.GRAIN.source = lambda name, split: one
  keep = jax.process_count, jax.process_index
  try:
    for count, start in itertools.product((1, 2, 3, 4), range(9)):
      seen = []
      for index in range(count):
        jax.process_count, jax.process_index = (lambda: count), (lambda: index)
        stubs.GRAIN.loaders.clear()
        config = dataset.ImageAlignmentDatasetConfig(
            data_dir='somewhere', batch_size=1, image_size=2, start_index=start)
        dataset.make_dataset(config, seed=17)
        loaders(ctx, 'image_alignment', 1, start // count * count + index)
        seen += [l.start_index for l in stubs.GRAIN.loaders[:1]]
        ctx.evaluated('shards', count, start, index)
      ctx.check(sorted(s % count for s in seen) == list(range(count)), 'shards', f'{seen}')
  finally:
    jax.process_count, jax.process_index = keep
