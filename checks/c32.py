"""C32: synthetic images and masks show the material where it is."""

import itertools

import numpy as np

from mc import util

PROPERTY = 'C32'
LEVEL = 'model_checking'
RULE = (
    'every set of up to three atoms from a lattice of positions, numbers and'
    ' orders, field of view, exponent and shape of image: masks are compared'
    ' pixel by pixel, clean images by their geometry (peak, shift, symmetry,'
    ' superposition, scale, border), noisy images by range and repeatability,'
    ' and every noise step on its own. A state is the scene.'
)
ASSUMPTIONS = [
    'images have at least one atom in view',
    'positions on the boundary of a disc within rounding may go either way',
]

VIEWS = ((0.0, 0.0, 8.0, 8.0), (-10.0, 5.0, -2.0, 9.0), (3.0, -4.0, 7.0, 12.0))
PLACES = ((0.5, 0.5), (0.25, 0.75), (0.8, 0.3), (0.05, 0.95), (1.02, 0.4), (0.52, 0.47))
NUMBERS = (6, 14, 1)


def cases(tier):
  for view in range(len(VIEWS)):
    for shape in range(4):
      for exponent in (None, 1.2, 2.0):
        yield {'kind': 'mask', 'view': view, 'shape': shape, 'exponent': exponent,
               'most': 2 if tier == 'quick' else 3}
    for size in (32, 64):
      yield {'kind': 'peak', 'view': view, 'size': size}
      yield {'kind': 'shift', 'view': view, 'size': size}
    yield {'kind': 'sums', 'view': view}
    yield {'kind': 'border', 'view': view}
  for part in range(8):
    yield {'kind': 'noisy', 'part': part, 'seeds': 2 if tier == 'quick' else 12}
    yield {'kind': 'steps', 'part': part, 'seeds': 3 if tier == 'quick' else 20}


def run_case(ctx, case):
  globals()[case['kind']](ctx, case)


def mask(ctx, case):
  from putting_dune import imaging

  x0, y0, x1, y1 = VIEWS[case['view']]
  w, h = ((24, 24), (40, 16), (16, 40), (33, 21))[case['shape']]
  view = util.fov(x0, y0, x1, y1)
  more = {} if case['exponent'] is None else {'intensity_exponent': case['exponent']}
  exponent = 1.7 if case['exponent'] is None else case['exponent']
  for n in range(case['most'] + 1):
    for chosen in itertools.permutations(range(len(PLACES)), n):
      for z in itertools.product(NUMBERS, repeat=n):
        p = np.array([PLACES[k] for k in chosen]).reshape(-1, 2)
        got = util.pure(ctx, 'mask', imaging.generate_grid_mask, util.grid(p, list(z)), view,
                        image_dimensions=(w, h), **more)
        if not ctx.check(got.shape == (h, w), 'mask:shape', f'{got.shape} {w, h}'):
          continue
        # Row 0 is the top.
        cx = x0 + (np.arange(w) + 0.5) * (x1 - x0) / w
        cy = y1 - (np.arange(h) + 0.5) * (y1 - y0) / h
        want = np.zeros((h, w), int)
        unsure = np.zeros((h, w), bool)
        for (a, b), number in zip(p, z):
          d = ((cx[None] - (x0 + a * (x1 - x0))) ** 2 + (cy[:, None] - (y0 + b * (y1 - y0))) ** 2)
          limit = (number / 6) ** exponent * 0.1
          want[d < limit] = number
          unsure |= np.abs(d - limit) < 1e-9
        ctx.check(bool(((got == want) | unsure).all()), 'mask:pixel',
                  lambda: f'{chosen} {z} {view} {w, h}: {np.argwhere(got != want)[:5]}')
        ctx.state(case['view'], case['shape'], exponent, chosen, z)
        ctx.step()
  ctx.trace()


def clean(ctx, p, z, view, size, **more):
  from putting_dune import imaging

  p = np.array(p, float).reshape(-1, 2)
  got = util.pure(ctx, 'clean', imaging.generate_clean_image, util.grid(p, list(z)),
                  util.fov(*view), image_size=size, **more)
  ctx.check(got.shape == (size, size), 'clean:shape', f'{got.shape}')
  ctx.check(bool(np.isfinite(got).all()) and got.min() >= 0 and abs(got.max() - 1) < 1e-12,
            'clean:range', f'{got.min()} {got.max()}')
  return got


def centre(i, j, size):
  """Where the centre of the pixel in row i and column j is in the view."""
  return ((j + 0.5) / size, 1 - (i + 0.5) / size)


def peak(ctx, case):
  """One atom: brightest at its pixel, symmetric, as wide as documented in length."""
  view, size = VIEWS[case['view']], case['size']
  for i, j in itertools.product(range(0, size, max(1, size // 16)), repeat=2):
    for z in NUMBERS:
      got = clean(ctx, [centre(i, j, size)], [z], view, size)
      ctx.check(np.unravel_index(got.argmax(), got.shape) == (i, j), 'clean:peak',
                lambda: f'{i, j}: {np.unravel_index(got.argmax(), got.shape)}')
      # Symmetric as far as both sides are in the image.
      for d in range(1, size):
        if 0 <= i - d and i + d < size:
          ctx.check(abs(got[i - d, j] - got[i + d, j]) < 1e-9, 'clean:symmetric', f'{i, j} {d}')
        if 0 <= j - d and j + d < size:
          ctx.check(abs(got[i, j - d] - got[i, j + d]) < 1e-9, 'clean:symmetric', f'{i, j} {d}')
      # The width is the same length in both directions.
      sx = size / (2.15 * (view[2] - view[0]))
      sy = size / (2.15 * (view[3] - view[1]))
      a, b = int(round(sx)), int(round(sy))
      if 0 < a and j + a < size:
        ctx.check(abs(got[i, j + a] - np.exp(-a * a / (2 * sx * sx))) < 0.02, 'clean:width',
                  lambda: f'{got[i, j + a]} {a} {sx}')
      if 0 < b and i + b < size:
        ctx.check(abs(got[i + b, j] - np.exp(-b * b / (2 * sy * sy))) < 0.02, 'clean:height',
                  lambda: f'{got[i + b, j]} {b} {sy}')
      ctx.state(case['view'], size, i, j, z)
      ctx.step()
  ctx.trace()


def shift(ctx, case):
  """Moving all atoms by whole pixels moves the image."""
  view, size = VIEWS[case['view']], case['size']
  scene = ((size // 2, size // 2, 14), (size // 2 - 3, size // 2 + 4, 6),
           (size // 2 + 6, size // 2 - 2, 6))
  reference = clean(ctx, [centre(i, j, size) for i, j, _ in scene], [z for *_, z in scene],
                    view, size, buffer_size=1.0)
  reach = size // 4
  for di, dj in itertools.product(range(-reach, reach + 1, max(1, reach // 6)), repeat=2):
    got = clean(ctx, [centre(i + di, j + dj, size) for i, j, _ in scene], [z for *_, z in scene],
                view, size, buffer_size=1.0)
    a = got[max(di, 0):size + min(di, 0), max(dj, 0):size + min(dj, 0)]
    b = reference[max(-di, 0):size - max(di, 0), max(-dj, 0):size - max(dj, 0)]
    ctx.check(util.close(a, b, 1e-9), 'clean:shift', f'{di, dj}')
    ctx.state(case['view'], size, di, dj)
    ctx.step()
  ctx.trace()


def sums(ctx, case):
  """The image is the sum of those of its atoms, weighted by their numbers."""
  view, size = VIEWS[case['view']], 48
  places = [(10, 12), (24, 24), (30, 8), (40, 38), (24, 27)]
  alone = {k: clean(ctx, [centre(*places[k], size)], [6], view, size) for k in range(len(places))}
  # An atom's image is normalised by its own peak, which the border cuts nothing off.
  for n in (1, 2, 3):
    for chosen in itertools.permutations(range(len(places)), n):
      for z in itertools.product(NUMBERS, repeat=n):
        for exponent in (None, 1.4, 2.0):
          more = {} if exponent is None else {'intensity_exponent': exponent}
          got = clean(ctx, [centre(*places[k], size) for k in chosen], z, view, size, **more)
          want = sum(alone[k] * float(number) ** (exponent or 1.7)
                     for k, number in zip(chosen, z))
          ctx.check(util.close(got, want / want.max(), 1e-9), 'clean:sum',
                    f'{chosen} {z} {exponent}')
          ctx.state(case['view'], chosen, z, exponent)
          ctx.step()
  # Two atoms in one pixel count twice.
  p = centre(*places[1], size)
  got = clean(ctx, [p, p, centre(*places[3], size)], [6, 6, 6], view, size)
  want = 2 * alone[1] + alone[3]
  ctx.check(util.close(got, want / want.max(), 1e-9), 'clean:coincident')
  ctx.trace()


def border(ctx, case):
  """Atoms outside the view only show through the buffer."""
  view, size = VIEWS[case['view']], 40
  inside = centre(20, 20, size)
  reference = clean(ctx, [inside], [6], view, size)
  for k, (x, y) in itertools.product(range(-4, 45, 4), ((-0.0125, None), (1.0125, None),
                                                        (None, -0.0125), (None, 1.0125),
                                                        (None, -0.9), (1.9, None))):
    along = (k + 0.5) / size
    outside = (along if x is None else x, along if y is None else y)
    for z in (6, 14):
      got = clean(ctx, [inside, outside], [6, z], view, size)
      ctx.check(util.close(got, reference, 1e-12), 'clean:outside', f'{outside}')
      for buffer in (0.1, 0.25):
        got = clean(ctx, [inside, outside], [6, z], view, size, buffer_size=buffer)
        big = 40 + 2 * int(buffer * 40)
        # As in an image of the larger view.
        q = (np.array([inside, outside]) + buffer) / (1 + 2 * buffer)
        within = ((q >= 0) & (q <= 1)).all(1)
        dx, dy = buffer * (view[2] - view[0]), buffer * (view[3] - view[1])
        large = clean(ctx, q[within], np.array([6, z])[within],
                      (view[0] - dx, view[1] - dy, view[2] + dx, view[3] + dy), big)
        m = int(buffer * 40)
        part = large[m:m + 40, m:m + 40]
        ctx.check(util.close(got, part / part.max(), 1e-9), 'clean:buffer',
                  f'{outside} {buffer}')
      ctx.state(case['view'], k, x, y, z)
      ctx.step()
  ctx.trace()


def noisy(ctx, case):
  from putting_dune import imaging

  samplers = (imaging.sample_image_parameters, imaging.sample_noisy_image_parameters)
  view = util.fov(*VIEWS[case['part'] % len(VIEWS)])
  grid = util.grid([[0.3, 0.4], [0.7, 0.2], [0.5, 0.8]], [6, 14, 6])
  before = util.snap(grid)
  for seed in range(case['part'], 8 * case['seeds'], 8):
    for k, sample in enumerate(samplers):
      rng = np.random.default_rng(seed)
      params = sample(rng, image_size=48)
      again = sample(np.random.default_rng(seed), image_size=48)
      ctx.check(params == again and params.image_size == 48, 'parameters:seed', f'{params}')
      ctx.check(sample(np.random.default_rng(seed)).image_size == 512, 'parameters:size')
      ctx.check(params.intensity_exponent > 1 and params.gaussian_variance >= 0
                and params.jitter_rate >= 0 and params.poisson_rate_multiplier >= 1
                and params.contrast_gamma > 0 and params.blur_amount >= 0
                and 0 <= params.salt_and_pepper_amount < 1
                and params.exponential_lambda >= 0 and params.uniform_noise_scale >= 0,
                'parameters:valid', f'{params}')
      for buffer in (0.0, 0.25):
        images = [imaging.generate_stem_image(grid, view, params, np.random.default_rng(s), buffer)
                  for s in (seed, seed, seed + 100)]
        a, b, c = images
        ctx.check(a.shape == (48, 48) and bool(np.isfinite(a).all()) and a.min() >= 0
                  and a.max() <= 1, 'noisy:range', f'{a.min()} {a.max()}')
        ctx.check(np.array_equal(a, b), 'noisy:seed', f'{seed}')
        ctx.check(not np.array_equal(a, c), 'noisy:random', f'{seed}')
        ctx.state(seed, k, buffer)
        ctx.step()
  ctx.check(util.same(before, util.snap(grid)), 'noisy:modified')
  ctx.trace()


def steps(ctx, case):
  """Every step on its own."""
  from putting_dune import imaging

  images = {
      'ramp': np.arange(30 * 40).reshape(30, 40) / 1199.0,
      'dot': np.pad(np.ones((1, 1)), ((11, 18), (25, 14))),
      'half': np.full((20, 20), 0.5),
  }
  for seed in range(case['part'], 8 * case['seeds'], 8):
    for name, image in images.items():
      def call(fn, *args, image=image):
        before = image.copy()
        got = fn(image, *args, np.random.default_rng(seed))
        again = fn(image, *args, np.random.default_rng(seed))
        ctx.check(np.array_equal(image, before), 'step:modified', f'{fn.__name__}')
        ctx.check(np.array_equal(got, again), 'step:seed', f'{fn.__name__}')
        ctx.check(got.shape == image.shape, 'step:shape', f'{fn.__name__}')
        return got

      # Jitter turns rows to the right, and nothing else.
      for rate in (0.0, 0.5, 3.0):
        got = call(imaging.apply_jitter, rate)
        rolls = np.random.default_rng(seed).poisson(rate, size=len(image))
        ctx.check(np.array_equal(got, [np.roll(r, k) for r, k in zip(image, rolls)]),
                  'jitter', f'{name} {rate}')
      # Salt and pepper puts some pixels to 0 or 1.
      for amount in (0.0, 0.1, 1.0):
        got = call(imaging.apply_salt_and_pepper_noise, amount)
        ctx.check(bool(((got == image) | (got == 0) | (got == 1)).all()), 'salt', f'{name}')
        if amount == 0:
          ctx.check(np.array_equal(got, image), 'salt:none', f'{name}')
        if amount == 1:
          ctx.check(bool(((got == 0) | (got == 1)).all()), 'salt:all', f'{name}')
      for scale in (0.0, 0.3):
        for fn in (imaging.apply_uniform_noise, imaging.apply_exponential_noise):
          got = call(fn, scale)
          ctx.check(abs(got.max() - 1) < 1e-12 and got.min() >= 0, 'noise:normalised',
                    f'{fn.__name__}')
          if not scale:
            ctx.check(np.allclose(got, image / image.max()), 'noise:none', f'{fn.__name__}')
          elif fn is imaging.apply_uniform_noise:
            # Noise within the scale cannot turn the order of pixels further apart.
            a, b = image.ravel()[:-1], image.ravel()[1:]
            far = (b - a) > scale
            ctx.check(bool((got.ravel()[1:] - got.ravel()[:-1])[far].min(initial=1) > 0),
                      'noise:scale')
          ctx.check(len(np.unique(got)) > (1 if scale else 0), 'noise:random', f'{fn.__name__}')
      got = call(imaging.apply_gaussian_noise, 0.0)
      ctx.check(np.allclose(got, image), 'gaussian:none', f'{name}')
      got = call(imaging.apply_gaussian_noise, 0.01)
      ctx.check(0 <= got.min() and got.max() <= 1, 'gaussian:range')
      got = call(imaging.apply_poisson_noise, 40.0)
      ctx.check(got.max() == 1 and got.min() >= 0 and bool((got[image == 0] == 0).all()),
                'poisson', f'{name}')
      for gamma in (0.5, 1.0, 1.5):
        got = util.pure(ctx, 'contrast', imaging.apply_contrast, image, gamma)
        ctx.check(np.allclose(got, image ** gamma), 'contrast', f'{name} {gamma}')
      for amount in (0.0, 0.7):
        got = util.pure(ctx, 'blur', imaging.apply_blur, image, amount)
        ctx.check(abs(got.max() - 1) < 1e-12, 'blur:normalised')
        if amount == 0:
          ctx.check(np.allclose(got, image / image.max()), 'blur:none')
        elif name == 'dot':
          ctx.check(got[11, 25] == 1 and abs(got[11, 24] - got[12, 25]) < 1e-9
                    and abs(got[11, 24] - np.exp(-0.5 / 0.49)) < 0.02, 'blur:width',
                    f'{got[11, 24]}')
      ctx.state(seed, name)
      ctx.step()
  ctx.trace()
