"""C31: from predicted pixel classes to atoms."""

import itertools

import numpy as np

from mc import util

PROPERTY = 'C31'
LEVEL = 'model_checking'
RULE = (
    'every position and size of a blob of every class on images of several'
    ' shapes, every set of up to three blobs from a lattice of places and'
    ' classes, every width of the buffer, and every pattern of pixels of a'
    ' small window: one atom per blob, near its centre, of its class, none'
    ' elsewhere. A state is the image.'
)
ASSUMPTIONS = [
    'blobs do not touch and are discs of at least four pixels of radius; for'
    ' smaller patterns, only that no atom is reported away from them',
    'an atom is near the centre within two pixels, three for silicon (erosion)',
]

SHAPES = ((64, 64), (48, 96), (80, 40))
BUFFERS = (0.05, 0.0, 0.2, 0.5)


def cases(tier):
  for shape in range(len(SHAPES)):
    for number in (1, 2):
      for part in range(4):
        yield {'kind': 'single', 'shape': shape, 'number': number, 'part': part,
               'step': 3 if tier == 'quick' else 1}
    for first in range(-1, 9):
      yield {'kind': 'several', 'shape': shape, 'first': first,
             'most': 3 if tier == 'quick' else 4}
  for part in range(8):
    yield {'kind': 'patterns', 'part': part, 'side': 3 if tier == 'quick' else 4}
  for part in range(8):
    yield {'kind': 'detector', 'part': part}
  # How sure the network is of its classes, as a difference of logits.
  for part in range(8):
    for margin in (4.5, 8.0, 12.0, 20.0, 60.0, 110.0):
      yield {'kind': 'detector', 'part': part, 'margin': margin}


def run_case(ctx, case):
  globals()[case['kind']](ctx, case)


def draw(shape, blobs):
  """Classes of an image with discs (x, y, radius, class)."""
  yy, xx = np.mgrid[:shape[0], :shape[1]]
  out = np.zeros(shape, np.int64)
  for x, y, r, c in blobs:
    out[(xx - x) ** 2 + (yy - y) ** 2 <= r * r] = c
  return out


def probabilities(classes, k=0):
  p = np.full((*classes.shape, 3), (0.3, 0.1)[k % 2])
  np.put_along_axis(p, classes[..., None], (0.4, 0.8)[k % 2], -1)
  return p


def compare(ctx, alignment, shape, blobs, k):
  classes = draw(shape, blobs)
  h, w = shape
  p = probabilities(classes, k)
  for number, wear in ((1, 1), (2, 3)):
    found = util.pure(ctx, 'centroids', alignment.ImageAligner.compute_centroids, classes,
                      number, wear)
    match(ctx, shape, [b for b in blobs if b[3] == number], found, 2 if wear == 1 else 3,
          f'{shape} {blobs} class {number}')
  for buffer in BUFFERS[k % 2::2] + (None,):
    more = {} if buffer is None else {'buffer_width': buffer}
    width = 0.05 if buffer is None else buffer
    grid = util.pure(ctx, 'detect', alignment.ImageAligner.process_detection_predictions, p,
                     **more)
    z = np.asarray(grid.atomic_numbers)
    q = np.asarray(grid.atom_positions).reshape(-1, 2)
    ctx.check(len(z) == len(q), 'detect:lengths', f'{grid}')
    ctx.check(bool(((q > width) & (q < 1 - width)).all()), 'detect:buffer', f'{width} {q}')
    for number, element in ((1, 6), (2, 14)):
      near = 2 if number == 1 else 3
      slack = np.array([near / w, near / h])
      inside, unsure = [], []
      for b in blobs:
        if b[3] != number:
          continue
        at = np.array([(b[0] + 0.5) / w, 1 - (b[1] + 0.5) / h])
        if ((at - slack > width) & (at + slack < 1 - width)).all():
          inside.append(b)
        elif ((at + slack > width) & (at - slack < 1 - width)).all():
          unsure.append(b)
      match(ctx, shape, inside, q[z == element], near,
            f'{shape} {blobs} element {element} buffer {width}', unsure)
    ctx.check(set(z.tolist()) <= {6, 14}, 'detect:elements', f'{z}')
  ctx.state(shape, tuple(blobs))
  ctx.step()


def match(ctx, shape, blobs, found, near, where, optional=()):
  """One point for each blob, at most one for optional ones, none else."""
  h, w = shape
  found = [np.array([x * w, (1 - y) * h]) for x, y in found]
  for b in blobs:
    at = np.array([b[0] + 0.5, b[1] + 0.5])
    close = [k for k, p in enumerate(found) if np.abs(p - at).max() <= near]
    if not ctx.check(len(close) == 1, 'detect:blob missed' if not close else 'detect:blob twice',
                     lambda: f'{where}: {b} found {found}'):
      return
    found.pop(close[0])
  for b in optional:
    at = np.array([b[0] + 0.5, b[1] + 0.5])
    close = [k for k, p in enumerate(found) if np.abs(p - at).max() <= near]
    ctx.check(len(close) <= 1, 'detect:blob twice', where)
    if close:
      found.pop(close[0])
  ctx.check(not found, 'detect:invented', lambda: f'{where}: also {found}')


def single(ctx, case):
  from putting_dune import alignment

  h, w = SHAPES[case['shape']]
  k = 0
  for r in (4, 5, 7):
    ys = range(r + case['part'], h - r, 4 * case['step'])
    xs = range(r, w - r, case['step'])
    for y, x in itertools.product(ys, xs):
      k += 1
      compare(ctx, alignment, (h, w), [(x, y, r, case['number'])], k)
  ctx.trace()


def several(ctx, case):
  from putting_dune import alignment

  h, w = SHAPES[case['shape']]
  places = [(int((i + 1) * w / 4), int((j + 1) * h / 4)) for j in range(3) for i in range(3)]
  k = 0
  # Every set of places with the first one given, and every classes of it.
  later = range(case['first'] + 1, 9)
  sets = [()] if case['first'] < 0 else [
      (case['first'],) + rest for n in range(case['most'])
      for rest in itertools.combinations(later, n)]
  for chosen in sets:
    for numbers in itertools.product((1, 2), repeat=len(chosen)):
      k += 1
      blobs = [(*places[s], 4 + (i + k) % 2, c) for i, (s, c) in enumerate(zip(chosen, numbers))]
      compare(ctx, alignment, (h, w), blobs, k)
  ctx.trace()


def patterns(ctx, case):
  """No atom is reported away from the pixels of its class."""
  from putting_dune import alignment
  from putting_dune import atom_detector

  side = case['side']
  h, w = 24, 32
  for code in range(case['part'], 2 ** (side * side), 8):
    bits = np.array([(code >> i) & 1 for i in range(side * side)]).reshape(side, side)
    at = (10 + code % 5, 7 + code % 11)
    for number, wear in itertools.product((1, 2), (0, 1, 3)):
      if side > 3 and code % 3 != wear % 3:
        continue
      classes = np.zeros((h, w), np.int64)
      classes[at[0]:at[0] + side, at[1]:at[1] + side] = bits * number
      found = alignment.ImageAligner.compute_centroids(classes, number, wear)
      for x, y in found:
        ctx.check(at[1] - 2 <= x * w <= at[1] + side + 2
                  and at[0] - 2 <= (1 - y) * h <= at[0] + side + 2,
                  'centroids:elsewhere', lambda: f'{classes[at[0]:, at[1]:]}: {found}')
      other = alignment.ImageAligner.compute_centroids(classes, 3 - number, wear)
      ctx.check(not other, 'centroids:other class', f'{other}')
    image = np.zeros((256, 256), np.uint8)
    image[at[0]:at[0] + side, at[1]:at[1] + side] = bits
    for limit in (25, 140):
      found = atom_detector.compute_centroids(image, 1, limit)
      for x, y in found:
        ctx.check(at[1] - 2 <= x * 256 <= at[1] + side + 2
                  and at[0] - 2 <= (1 - y) * 256 <= at[0] + side + 2,
                  'centroids:elsewhere', lambda: f'detector {bits} {limit}: {found}')
    ctx.state(code)
    ctx.step()
  ctx.trace()


class Stub:
  """A detection model giving the logits it was told to."""

  def __init__(self, logits):
    import tensorflow as tf

    self.seen = []
    self.logits = tf.constant(logits)
    self.signatures = {'serving_default': self.predict}

  def predict(self, preprocessed_inputs_0):
    self.seen.append(preprocessed_inputs_0)
    return {'output_0': self.logits}


def detector(ctx, case):
  from etils import epath
  from putting_dune import atom_detector

  places = [(40, 60), (128, 128), (200, 50), (220, 190)]
  words = [w for n in range(5) for w in itertools.product((0, 1, 2), repeat=4)
           if sum(c > 0 for c in w) == n]
  aligner = atom_detector.AtomDetector(epath.Path('/nonexistent'))
  margin = case.get('margin', 30.0)
  # (Silicon is only seen where its probability rounds to one, and carbon taken for
  # silicon where that of silicon is exactly zero: known findings.)
  vague = ':silicon with a probability below one' if margin < 17 else ''
  extreme = ':silicon with a probability of zero' if margin > 87 else ''
  step = 8 if 'margin' not in case or ctx.deep else 24
  for word in words[case['part']::step]:
    blobs = [(*p, 5 + i % 2, c) for i, (p, c) in enumerate(zip(places, word)) if c]
    classes = draw((256, 256), blobs)
    logits = np.where(np.arange(3) == classes[..., None], margin, 0.0).astype(np.float32)
    model = Stub(logits)
    aligner.__dict__['model'] = model
    size = (64, 128, 256, 300)[len(blobs) % 4]
    image = (np.arange(size * size) % 251).reshape(size, size, 1).astype(np.float32)
    # Whatever range the intensities have.
    scale, offset = ((1, 0), (1, 100), (0.002, 0.3), (3, -400), (0.5, -30))[sum(word) % 5]
    image = np.float32(scale) * image + np.float32(offset)
    grid = util.pure(ctx, 'detector', aligner, image)
    seen = np.asarray(model.seen[0])
    ctx.check(seen.shape == (256, 256, 1) and abs(seen.min()) < 1e-5
              and abs(seen.max() - 1) < 1e-5, 'detector:input', f'{seen.shape}')
    if size == 256:
      want = (image - image.min()) / (image.max() - image.min())
      ctx.check(np.abs(seen - want).max() < 1e-4, 'detector:normalised', f'{scale} {offset}')
    z = np.asarray(grid.atomic_numbers)
    q = np.asarray(grid.atom_positions)
    ctx.check(q.shape == (len(z), 2), 'detector:shape', f'{q.shape}')
    for number, element in ((1, 6), (2, 14)):
      # Discs may be split into pieces, but each has at least one, none is elsewhere.
      mine = [b for b in blobs if b[3] == number]
      found = [np.array([x * 256, (1 - y) * 256]) for x, y in q[z == element]]
      for b in mine:
        ctx.check(any(np.abs(p - [b[0] + 0.5, b[1] + 0.5]).max() <= b[2] + 1 for p in found),
                  'detector:missed' + (vague if number == 2 else ''), f'{margin} {blobs}: {b} {found}')
      for p in found:
        ctx.check(any(np.abs(p - [b[0] + 0.5, b[1] + 0.5]).max() <= b[2] + 2 for b in mine),
                  'detector:invented' + (extreme if number == 2 else ''), f'{margin} {blobs}: {p}')
    ctx.state(word, margin)
    ctx.step()
  ctx.trace()
