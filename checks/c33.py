"""C33: images and trajectories are aligned frame by frame."""

import itertools

import numpy as np

from mc import boot
from mc import util

PROPERTY = 'C33'
LEVEL = 'model_checking'
RULE = (
    'every sequence of up to three (quick) or four images, fields of view and'
    ' resets, length of history and time index is shown to the image aligner'
    ' with a recording stand-in for the network; every sequence of drifts, step'
    ' size, number of iterations and relabelling is aligned with a stand-in for'
    ' the aligner; against the displacements and an own cutting of images. A'
    ' state is the history.'
)
ASSUMPTIONS = [
    'the network is replaced by a stand-in with given outputs',
    'images are not constant, displacements are whole pixels or small in hybrid'
    ' mode',
]

PIXEL = 20 / 512
# Displacement in pixels and zoom of fields of view.
VIEWS = ((0, 0, 1), (100, -40, 1), (-37, 5, 1), (600, 0, 1), (64, 32, 2))


def cases(tier):
  deep = tier != 'quick'
  for length in (1, 2, 3, 5):
    for first in range(len(VIEWS)):
      yield {'kind': 'stack', 'length': length, 'first': first, 'depth': 4 if deep else 3}
  yield {'kind': 'times'}
  yield {'kind': 'equalized'}
  for first in range(5):
    yield {'kind': 'hybrid', 'first': first, 'depth': 4 if deep else 3}
  for first in range(len(DRIFTS)):
    for iterations in (1, 2, 3):
      yield {'kind': 'trajectories', 'first': first, 'iterations': iterations,
             'depth': 5 if deep else 4}
  for part in range(4):
    yield {'kind': 'files', 'part': part}
  yield {'kind': 'loading'}


def run_case(ctx, case):
  globals()[case['kind']](ctx, case)


class Network:
  """Gives the outputs it was told to and keeps its inputs."""

  def __init__(self, logits=None, drift=(0.0, 0.0)):
    self.logits = np.zeros((512, 512, 3), np.float32) if logits is None else logits
    self.drift = drift
    self.seen = []
    self.signatures = {'serving_default': self.predict}

  def predict(self, image):
    import tensorflow as tf

    self.seen.append(np.array(image))
    return {'output_0': tf.constant(self.logits),
            'output_1': tf.constant(np.array(self.drift, np.float32).ravel())}


def new_aligner(network, hybrid=False, equalize=False):
  from etils import epath
  from putting_dune import alignment

  aligner = alignment.ImageAligner(epath.Path('/nonexistent'), hybrid=hybrid)
  aligner.__dict__['model'] = network
  aligner.adaptive_normalization = equalize
  return aligner


def view(k, size=20.0):
  x, y, zoom = VIEWS[k]
  size = size / zoom
  return (x * PIXEL, y * PIXEL, x * PIXEL + size, y * PIXEL + size)


def picture(t, kind):
  """An image with a known normal form."""
  base = (np.arange(256 * 256).reshape(256, 256) * (2 * t + 3) % 251).astype(np.float64)
  small = (base - base.min()) / (base.max() - base.min())
  normal = np.kron(small, np.ones((2, 2)))[..., None]
  if kind == 0:
    return base, normal
  if kind == 1:
    return (base * 3 - 17)[..., None], normal
  return np.kron(base, np.ones((2, 2))).astype(np.uint8)[..., None], normal


def cut(image, old, new):
  """The part of the image that the new view shows, zero where unknown."""
  n = 512
  scale = (new[2] - new[0]) / n
  x = new[0] + (np.arange(n) + 0.5) * scale
  y = new[3] - (np.arange(n) + 0.5) * scale
  pixel = (old[2] - old[0]) / n
  column = np.floor((x - old[0]) / pixel + 1e-9).astype(int)
  row = np.floor((old[3] - y) / pixel + 1e-9).astype(int)
  out = np.zeros_like(image)
  rows = np.flatnonzero((row >= 0) & (row < n))
  columns = np.flatnonzero((column >= 0) & (column < n))
  out[np.ix_(rows, columns)] = image[np.ix_(row[rows], column[columns])]
  return out


def stack(ctx, case):
  """The network sees the last images as the present view would have shown them."""
  n = case['length']
  words = util.sequences(range(len(VIEWS) + 1), case['depth'], case['depth'])
  for i, word in enumerate(w for w in words if w[0] == case['first']):
    if i % (2 if n > 1 else 7) and not ctx.deep:
      continue
    network = Network()
    aligner = new_aligner(network)
    aligner.history_length = n
    past = []
    for t, w in enumerate(word):
      if w == len(VIEWS):
        aligner.reset(history_length=n)
        past = []
        continue
      image, normal = picture(t, (t + i) % 3)
      image = image.copy()
      before = image.copy()
      view_now = view(w)
      grid, drift, probs = aligner(image, util.fov(*view_now))
      where = f'{n} {word} {t}'
      ctx.check(np.array_equal(before, image), 'image:modified', where)
      ctx.check(np.shape(drift) == (2,) and util.close(drift, (0, 0)), 'drift', f'{where} {drift}')
      ctx.check(probs.shape == (512, 512, 3) and np.allclose(probs, 1 / 3), 'labels', where)
      seen = network.seen[-1]
      if not ctx.check(seen.shape == (512, 512, n), 'stack:shape', f'{where} {seen.shape}'):
        break
      ctx.check(np.allclose(seen[..., -1:], normal, atol=1e-5), 'stack:present', where)
      frames = ([None] * n + past)[len(past) + 1:] if n > 1 else []
      for k, frame in enumerate(frames):
        if frame is None:
          ctx.check(not seen[..., k].any(), 'stack:empty', f'{where} frame {k}')
          continue
        old_image, old_view = frame
        if (old_view[2] - old_view[0]) < (view_now[2] - view_now[0]):
          # The larger view shows every second pixel: any of the four.
          shown = seen[..., k]
          options = [cut(np.roll(old_image, s, (0, 1)), old_view, view_now)[..., 0]
                     for s in itertools.product((0, 1), repeat=2)]
          inside = cut(np.ones_like(old_image), old_view, view_now)[..., 0] > 0
          ok = np.any([np.isclose(shown, o, atol=1e-5) for o in options], axis=0)
          edge = np.zeros_like(inside)
          rows, columns = np.flatnonzero(inside.any(1)), np.flatnonzero(inside.any(0))
          if len(rows) and len(columns):
            edge[[rows[0], rows[-1]]] = edge[:, [columns[0], columns[-1]]] = True
          ctx.check(bool((ok | edge).all()), 'stack:past', f'{where} frame {k}')
        else:
          want = cut(old_image, old_view, view_now)
          ctx.check(np.allclose(seen[..., k], want[..., 0], atol=1e-5), 'stack:past',
                    f'{where} frame {k}')
      past.append((normal, view_now))
      ctx.step()
    ctx.state(n, word)
  ctx.trace()


def blob(t):
  yy, xx = np.mgrid[:512, :512]
  return ((xx - 100 - 60 * t) ** 2 + (yy - 150 - 30 * t) ** 2) < 64


def times(ctx, case):
  """The outputs of the chosen time, and a given grid is kept."""
  from putting_dune import alignment

  for steps in (1, 2, 5):
    logits = np.zeros((512, 512, steps, 3), np.float32)
    for t in range(steps):
      logits[..., t, 0] = 3
      logits[blob(t), t, 1 + t % 2] = 9
    drifts = np.array([[0.5 + t, -0.25 * t] for t in range(steps)])
    for index in [-1, *range(steps), *range(-steps, 0)]:
      for given in (None, util.grid([[0.2, 0.3]], [14])):
        network = Network(logits.reshape(512, 512, -1), drifts)
        aligner = new_aligner(network)
        more = {} if index == -1 else {'time_index': index}
        grid, drift, probs = aligner(picture(0, 0)[0], util.fov(0, 0, 20, 20), given, **more)
        where = f'{steps} {index}'
        ctx.check(util.close(drift, drifts[index], 1e-6), 'time:drift', f'{where} {drift}')
        want = np.exp(logits[..., index, :])
        want = want / want.sum(-1, keepdims=True)
        ctx.check(np.allclose(probs, want, atol=1e-5), 'time:labels', where)
        if given is not None:
          ctx.check(grid is given or util.same(util.snap(grid), util.snap(given)),
                    'time:given grid', where)
        else:
          t = range(steps)[index]
          at = ((100 + 60 * t + 0.5) / 512, 1 - (150 + 30 * t + 0.5) / 512)
          ctx.check(np.shape(grid.atom_positions) == (1, 2)
                    and np.abs(grid.atom_positions[0] - at).max() < 3 / 512
                    and list(grid.atomic_numbers) == [(6, 14)[t % 2]], 'time:grid',
                    f'{where} {grid}')
        expected = alignment.ImageAligner.process_detection_predictions(probs)
        if given is None:
          ctx.check(util.same(util.snap(grid), util.snap(expected)), 'time:labels and grid', where)
        ctx.state(steps, index, given is None)
        ctx.step()
  ctx.trace()


def equalized(ctx, case):
  """With equalization, brightness and contrast of an image do not matter."""
  base, _ = picture(1, 0)
  for gain, offset in itertools.product((1.0, 0.01, 40.0), (0.0, 5.0, -300.0)):
    network = Network()
    aligner = new_aligner(network, equalize=True)
    for image in (base, base * gain + offset):
      aligner(image, util.fov(0, 0, 20, 20))
    a, b = (s[..., -1] for s in network.seen)
    ctx.check(abs(a.min()) < 1e-6 and abs(a.max() - 1) < 1e-6, 'equalized:range')
    ctx.check(np.mean(np.abs(a - b)) < 0.02, 'equalized:invariant', f'{gain} {offset}')
    ctx.state(gain, offset)
    ctx.step()
  ctx.trace()


# What the network says, and what is true.
SHIFTS = ((0.0, 0.0), (0.3, -0.2), (-0.25, 0.4), (0.0, 0.45), (-0.4, -0.1))


def hybrid(ctx, case):
  """The grid corrects the drift the network estimated, and faulty grids reset it."""
  sheet = util.honeycomb(8, angle=0.25)
  sheet = sheet[(np.abs(sheet) < 7.5).all(1)]
  numbers = np.full(len(sheet), 6)
  numbers[3] = 14
  box = (-10.0, -10.0, 10.0, 10.0)
  for rest in itertools.product(range(len(SHIFTS) + 1), repeat=case['depth'] - 1):
    word = (case['first'],) + rest
    network = Network()
    aligner = new_aligner(network, hybrid=True)
    np.random.seed(0)
    reference = None
    for t, w in enumerate(word):
      if w == len(SHIFTS):
        aligner.reset()
        reference = None
        continue
      true = np.array(SHIFTS[w])
      guess = true - np.array(SHIFTS[(w + t) % len(SHIFTS)]) * 0.5
      network.drift = guess
      # The network is wrong by less than half a bond.
      material = sheet + true
      grid = util.grid((material - box[:2]) / 20.0, numbers)
      before = util.snap(grid)
      got, drift, _ = aligner(picture(t, 0)[0], util.fov(*box), grid)
      ctx.check(util.same(before, util.snap(grid)), 'hybrid:modified')
      where = f'{word} {t}'
      if reference is None:
        # The first frame is the reference, as the network sees it.
        ctx.check(util.close(drift, guess, 1e-6), 'hybrid:first', f'{where} {drift}')
        reference = true - guess
      else:
        ctx.check(np.abs(drift - (true - reference)).max() < 0.02, 'hybrid:drift',
                  f'{where}: {drift} instead of {true - reference}')
      # The grid, in the corrected field of view, is the reference sheet.
      shifted = util.fov(*(np.array(box) - np.tile(np.asarray(drift, float), 2)))
      back = shifted.microscope_frame_to_material_frame(got)
      q = np.asarray(back.atom_positions)
      d = np.linalg.norm(q[:, None] - (sheet + reference)[None], axis=-1)
      ctx.check(len(q) == len(sheet) and sorted(d.argmin(1)) == list(range(len(sheet)))
                and d.min(1).max() < 0.05, 'hybrid:grid', f'{where} {len(q)} {d.min(1).max()}')
      ctx.check(list(d.argmin(1)[np.asarray(got.atomic_numbers) == 14]) == [3],
                'hybrid:numbers', where)
      ctx.step()
    ctx.state(word)
  ctx.trace()


DRIFTS = ((0.0, 0.0), (1.5, -0.5), (-2.0, 3.0), (0.25, 0.0))


class Follower:
  """An aligner that knows where everything is."""

  def __init__(self, truth):
    self.truth = truth  # of the image with this number
    self.calls = []
    self.resets = []

  def reset(self, history_length=5, **unused):
    self.resets.append((len(self.calls), history_length))

  def __call__(self, image, fov, grid=None, time_index=-1):
    k = int(image[0, 0])
    self.calls.append((k, util.snap(fov)))
    now = np.array([fov.lower_left.x, fov.lower_left.y])
    return util.grid([[0.1 * (k + 1), 0.5]], [14]), now - self.truth[k], None


def make_trajectory(word, start=0):
  from putting_dune import microscope_utils as mu

  out, truth = [], {}
  for t, w in enumerate(word):
    view = np.array([3.0 * t, -2.0 * t])
    truth[start + t] = view - np.array(DRIFTS[w])
    out.append(util.observation(
        util.grid([[0.5, 0.25], [0.7, 0.2 + 0.1 * t]], [14, 6]),
        util.fov(*view, *(view + [20, 24])),
        [util.control(0.5, 0.25 * j, 1.5 + j) for j in range(t % 3)], seconds=2.0 * t + 1,
        image=np.full((2, 3, 1), start + t, np.float32),
        label_image=np.full((2, 3, 1), 9, np.float32) if t % 2 else None))
  return mu.Trajectory(out), truth


def arguments(**more):
  from etils import epath
  from putting_dune.pipeline import align_trajectories

  return align_trajectories.Args(**{
      'source_path': epath.Path('/nonexistent'), 'target_path': epath.Path('/nonexistent'),
      'aligner_path': epath.Path('/nonexistent'), **more})


def trajectories(ctx, case):
  from putting_dune.pipeline import align_trajectories

  for n in range(case['depth']):
    for rest in itertools.product(range(len(DRIFTS)), repeat=n):
      word = (case['first'],) + rest
      for base, relabel, length in ((1.0, False, 5), (0.5, True, 3), (0.0, False, 2),
                                    (0.25, False, 5)):
        given, truth = make_trajectory(word)
        before = util.snap(given)
        follower = Follower(truth)
        args = arguments(base_step_size=base, relabel=relabel, history_length=length,
                         alignment_iterations=case['iterations'])
        got = align_trajectories.do_alignment(given, args, follower)
        where = f'{word} {case["iterations"]} {base} {relabel}'
        ctx.check(util.same(before, util.snap(given)), 'trajectory:modified', where)
        # What the steps lead to.
        views = [np.array([o.fov.lower_left.x, o.fov.lower_left.y]) for o in given.observations]
        asked = []
        for i in range(1, case['iterations'] + 1):
          step = base + (1 - base) * i / case['iterations']
          total = np.zeros(2)
          after = []
          for k, v in enumerate(views):
            asked.append((k, v - total))
            total = total + step * (v - total - truth[k])
            after.append(v - total)
          views = after
        ctx.check([k for k, _ in follower.calls] == [k for k, _ in asked], 'calls:images', where)
        for (_, snap), (_, want) in zip(follower.calls, asked):
          ctx.check(util.close(snap['lower_left'][1:], want, 1e-6)
                    and util.close(snap['upper_right'][1:], want + [20, 24], 1e-6),
                    'calls:view', f'{where}: {snap} {want}')
        ctx.check(follower.resets == [(i * len(word), length) for i in range(case['iterations'])],
                  'calls:resets', f'{where}: {follower.resets}')
        if not ctx.check(len(got.observations) == len(word), 'trajectory:length', where):
          continue
        for k, (o, g) in enumerate(zip(given.observations, got.observations)):
          ctx.check(util.close([g.fov.lower_left.x, g.fov.lower_left.y], views[k], 1e-6)
                    and util.close([g.fov.upper_right.x, g.fov.upper_right.y],
                                   views[k] + [20, 24], 1e-6), 'trajectory:view', where)
          if case['iterations'] == 1 or base == 1.0:
            ctx.check(util.close([g.fov.lower_left.x, g.fov.lower_left.y], truth[k], 1e-6),
                      'trajectory:truth', where)
          for name in ('controls', 'elapsed_time', 'image', 'label_image'):
            ctx.check(util.same(util.snap(getattr(o, name)), util.snap(getattr(g, name))),
                      'trajectory:' + name, where)
          want = util.grid([[0.1 * (k + 1), 0.5]], [14]) if relabel else o.grid
          ctx.check(util.same(util.snap(want), util.snap(g.grid), loose=True),
                    'trajectory:grid', f'{where}: {g.grid}')
        ctx.state(word, case['iterations'], base)
        ctx.step()
  ctx.trace()


def saved_network(path):
  """A zip file with a network that always says the same drift."""
  import os
  import zipfile
  import tensorflow as tf

  class Module(tf.Module):

    @tf.function(input_signature=[tf.TensorSpec((512, 512, 5), tf.float32, name='image')])
    def __call__(self, image):
      logits = tf.stack([tf.zeros((512, 512)), image[..., -1] * 0 - 9, image[..., -1] * 0 - 9], -1)
      return logits, tf.constant([0.5, -0.25]) + 0 * tf.reduce_sum(image)

  root = boot.scratch_dir()
  folder = os.path.join(root, 'image-alignment-model')
  tf.saved_model.save(Module(), folder)
  with zipfile.ZipFile(path, 'w') as z:
    for d, _, files in os.walk(folder):
      for f in files:
        full = os.path.join(d, f)
        z.write(full, os.path.relpath(full, root))


def files(ctx, case):
  """Every trajectory of every file is aligned, from its own start."""
  import os
  from etils import epath
  from putting_dune import io as pdio
  from putting_dune import microscope_utils as mu
  from putting_dune.pipeline import align_trajectories

  root = boot.scratch_dir()
  network = os.path.join(root, 'network.zip')
  saved_network(network)
  source = epath.Path(root) / 'in'
  source.mkdir()
  sizes = [(1,), (2, 1), (1, 0, 2), (0, 3)][case['part']]
  expected = []
  for i, count in enumerate(sizes):
    stored = []
    for j in range(count):
      t, _ = make_trajectory(((j + i) % len(DRIFTS),) * (1 + (i + j) % 2), 10 * i + 3 * j)
      t = mu.Trajectory([util.observation(
          o.grid, o.fov, o.controls, o.elapsed_time.total_seconds(),
          image=picture(int(o.image[0, 0, 0]), 0)[0][..., None].astype(np.float32))
          for o in t.observations])
      stored.append(t)
    pdio.write_records(source / f'{i}.tfrecords', stored)
    expected.extend(stored)
  (source / 'notes.txt').write_text('not a record')
  for single in (False, True):
    target = epath.Path(root) / f'out{single}.tfrecords'
    args = arguments(source_path=source / '0.tfrecords' if single else source,
                     target_path=target, aligner_path=epath.Path(network))
    align_trajectories.main(args)
    got = list(pdio.read_records(target, mu.Trajectory))
    want = expected[:sizes[0]] if single else expected
    ctx.check(len(got) == len(want), 'files:count', f'{len(got)} {len(want)}')

    def key(t):
      return [(o.elapsed_time.total_seconds(), float(np.asarray(o.grid.atom_positions).sum()),
               float(np.asarray(o.image)[3, 5, 0])) for o in t.observations]

    rounded = lambda t: np.round(np.array(key(t)), 3).tolist()
    ctx.check(sorted(map(rounded, got)) == sorted(map(rounded, want)), 'files:content',
              f'{list(map(rounded, got))} {list(map(rounded, want))}')
    by = {str(rounded(t)): t for t in want}
    for t in got:
      t0 = by.get(str(rounded(t)))
      for k, o in enumerate(t.observations if t0 else ()):
        total = np.array([0.5, -0.25]) * (k + 1)
        before = t0.observations[k].fov.lower_left
        ctx.check(util.close([o.fov.lower_left.x, o.fov.lower_left.y],
                             np.array([before.x, before.y]) - total, 1e-4), 'files:view',
                  f'{o.fov} {before} {total}')
    ctx.state(case['part'], single)
    ctx.step()
  ctx.trace()


def loading(ctx, case):
  """A packaged network is unpacked once, and again only if asked to."""
  import os
  from etils import epath
  from putting_dune import alignment

  for n, word in enumerate(util.sequences((False, True), 3, 1)):
    root = boot.scratch_dir()
    path = os.path.join(root, 'network.zip')
    work = os.path.join(root, 'work')
    os.mkdir(work)
    import zipfile

    content = None
    for version, reload in enumerate(word):
      with zipfile.ZipFile(path, 'w') as z:
        z.writestr('image-alignment-model/version.txt', str(version))
      aligner = alignment.ImageAligner.from_path(epath.Path(path), workdir=work, reload=reload,
                                                 hybrid=bool(n % 2))
      if content is None or reload:
        content = str(version)
      got = (epath.Path(aligner.model_path) / 'version.txt').read_text()
      ctx.check(got == content, 'loading:version', f'{word} {version}: {got}')
      ctx.check(aligner.hybrid == bool(n % 2), 'loading:arguments')
      ctx.check(str(aligner.model_path).startswith(work), 'loading:place')
    ctx.state(word)
    ctx.step()
  ctx.trace()
