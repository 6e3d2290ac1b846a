"""C29: cutting the view of another field of view out of an image."""

import itertools

import numpy as np

from mc import util

PROPERTY = 'C29'
LEVEL = 'model_checking'
RULE = (
    'every displacement by whole pixels (further than the image in every'
    ' direction), zoom, shape of image, number of channels, dtype and place of'
    ' the field of view: every pixel of the result is compared with the pixel'
    ' of the source that covers the centre of its area of material. A state is'
    ' (shape, channels, view, zoom, displacement).'
)
ASSUMPTIONS = [
    'fields of view are square, as the code documents',
    'displacements are whole pixels, or a quarter of a pixel off',
]

VIEWS = ((0.0, 0.0, 20.0), (-10.0, 5.0, 20.0), (3.5, -2.25, 8.0))
ZOOMS = (1.0, 2.0, 4.0, 0.5, 0.25, 1.5, 1 / 3, 3.0)
SHAPES = ((8, 8), (6, 6), (4, 8), (12, 6), (1, 1))


def cases(tier):
  for shape in range(len(SHAPES)):
    for zoom in range(len(ZOOMS)):
      for view in range(len(VIEWS)):
        yield {'kind': 'cut', 'shape': shape, 'zoom': zoom, 'view': view,
               'deep': tier != 'quick'}
  yield {'kind': 'round'}


def run_case(ctx, case):
  globals()[case['kind']](ctx, case)


def picture(h, w, channels, dtype):
  p = (np.arange(h * w * max(channels, 1)) % 250 + 1).reshape(h, w, max(channels, 1))
  if dtype == 'float':
    p = p / 256
  else:
    p = p.astype(np.uint8)
  return p[..., 0] if channels == 0 else p


def sources(lower, size, pixels, centre):
  """The pixels (from lower) whose area covers the centre, -1 for none."""
  x = (centre - lower) / size * pixels
  near = int(np.rint(x))
  found = [near - 1, near] if abs(x - near) < 1e-6 else [int(np.floor(x))]
  return [k if 0 <= k < pixels else -1 for k in found]


def cut(ctx, case):
  from putting_dune import alignment

  h, w = SHAPES[case['shape']]
  zoom = ZOOMS[case['zoom']]
  left, bottom, size = VIEWS[case['view']]
  if abs(zoom * h - np.rint(zoom * h)) > 1e-9:
    return
  if abs(zoom * w - np.rint(zoom * w)) > 1e-9 or zoom * min(h, w) < 1:
    return
  old = util.fov(left, bottom, left + size, bottom + size)
  new_size = size / zoom
  dy_px, dx_px = new_size / h, new_size / w
  far_y, far_x = int(np.rint(h * zoom)) + h + 2, int(np.rint(w * zoom)) + w + 2
  step = 1 if case['deep'] or max(far_x, far_y) < 20 else 3
  ys = sorted(set(range(-h - 2, far_y, step)) | {-h, 1 - h, 0, int(np.rint(h * zoom)) - 1})
  xs = sorted(set(range(-w - 2, far_x, step)) | {-w, 1 - w, 0, int(np.rint(w * zoom)) - 1})
  kinds = ((1, 'float'), (0, 'float'), (3, 'int'), (1, 'int'))
  for n, (ky, kx) in enumerate(itertools.product(ys, xs)):
    # The upper left corner is the first pixel.
    for off in (0.0, 0.25) if (n % 5 == 0 or case['deep']) else (0.0,):
      channels, dtype = kinds[n % len(kinds)]
      image = picture(h, w, channels, dtype)
      x0 = left + (kx + off) * dx_px
      y1 = bottom + size - (ky + off) * dy_px
      view = util.fov(x0, y1 - new_size, x0 + new_size, y1)
      got = util.pure(ctx, 'cut', alignment.pad_and_crop_images_by_fov, image, old, view)
      got = np.asarray(got)
      where = f'{(h, w)} {channels} {old} -> {view}'
      full = image if channels else image[..., None]
      if not ctx.check(got.shape == full.shape, 'cut:shape', f'{where}: {got.shape}'):
        continue
      columns = [sources(left, size, w, x0 + (j + 0.5 - off) * dx_px) for j in range(w)]
      rows = [sources(0.0, size, h, (bottom + size) - (y1 - (i + 0.5 - off) * dy_px))
              for i in range(h)]
      for i, j in itertools.product(range(h), range(w)):
        allowed = [full[a, b] if a >= 0 and b >= 0 else np.zeros(full.shape[-1])
                   for a in rows[i] for b in columns[j]]
        if not ctx.check(any(np.allclose(got[i, j], v, atol=1e-6) for v in allowed),
                         'cut:pixel',
                         lambda: f'{where}: pixel {i, j} is {got[i, j]}, not {allowed}'):
          break
      ctx.state(case['shape'], case['zoom'], case['view'], ky, kx, off, channels)
      ctx.step()
  ctx.trace()


def round(ctx, case):  # pylint: disable=redefined-builtin
  """Cutting back and forth keeps the overlap."""
  from putting_dune import alignment

  h = w = 6
  image = picture(h, w, 1, 'float')
  for ky, kx, ky2, kx2 in itertools.product(range(-3, 4, 1), range(-3, 4, 1), (-2, 0, 5), (-4, 0, 1)):
    a = util.fov(0, 0, 6, 6)
    b = util.fov(kx, ky, kx + 6, ky + 6)
    c = util.fov(kx + kx2, ky + ky2, kx + kx2 + 6, ky + ky2 + 6)
    there = alignment.pad_and_crop_images_by_fov(image, a, b)
    twice = np.asarray(alignment.pad_and_crop_images_by_fov(there, b, c))
    once = np.asarray(alignment.pad_and_crop_images_by_fov(image, a, c))
    kept = np.asarray(alignment.pad_and_crop_images_by_fov(
        alignment.pad_and_crop_images_by_fov(np.ones_like(image), a, b), b, c)) > 0
    ctx.check(np.array_equal(np.where(kept, once, 0), twice), 'cut:twice',
              f'{(ky, kx, ky2, kx2)}: {twice} {once}')
    ctx.state(ky, kx, ky2, kx2)
    ctx.step()
  ctx.trace()
