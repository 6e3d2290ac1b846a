"""C12: conversions between the view and the material."""

from mc import util

PROPERTY = 'C12'
LEVEL = 'model_checking'
RULE = (
    'every view (square, oblong, far away, tiny) and every composition, up to the'
    ' depth, of shift, zoom and resize is tracked by an exact rectangle; on every'
    ' view reached, points of a grid (inside, on the border, outside) in every'
    ' form (point, array of one, many or no points in both precisions, grid, beam'
    ' control) are converted both ways. A state is (view, operations).'
)
ASSUMPTIONS = ['values are compared to 1e-9 relative to the size of the numbers']

VIEWS = ((0, 0, 20, 20), (-7.5, 3.0, 12.5, 43.0), (5000.0, -400.0, 5016.0, -375.0),
         (-0.25, 0.5, 0.0, 0.75))
OPS = (('shift', 3.5, -2.0), ('shift', -1000.0, 0.25), ('shift', 0.0, 0.0),
       ('zoom', 2.0), ('zoom', 0.3), ('resize', 12.0, 5.0), ('resize', 0.5, 80.0))


def cases(tier):
  for v in range(len(VIEWS)):
    for first in range(len(OPS)):
      yield {'kind': 'ops', 'view': v, 'first': first,
             'depth': 4 if tier != 'quick' else 3}
  yield {'kind': 'errors'}


def apply(box, op):
  cx, cy = (box[0] + box[2]) / 2, (box[1] + box[3]) / 2
  w, h = box[2] - box[0], box[3] - box[1]
  if op[0] == 'shift':
    return (box[0] + op[1], box[1] + op[2], box[2] + op[1], box[3] + op[2])
  if op[0] == 'zoom':
    w, h = w / op[1], h / op[1]
  else:
    w, h = op[1], op[2]
  return (cx - w / 2, cy - h / 2, cx + w / 2, cy + h / 2)


def run_case(ctx, case):
  import numpy as np
  from mc import core, simlib

  if case['kind'] == 'errors':
    f = util.fov(0, 0, 2, 3)
    for bad in (None, 'point', [0.5, 0.5], (1, 2)):
      for fn in (f.microscope_frame_to_material_frame,
                 f.material_frame_to_microscope_frame):
        ctx.check(isinstance(util.raises(fn, bad), NotImplementedError),
                  'unsupported_accepted', repr(bad))
        ctx.step()
        ctx.state('errors', repr(bad))
    ctx.trace()
    return

  def history(chooser):
    box = tuple(float(x) for x in VIEWS[case['view']])
    f = util.fov(*box)
    size = max(abs(x) for x in box) + 1
    for k in range(case['depth']):
      c = chooser.choose('op', len(OPS)) if k else case['first']
      op = OPS[c]
      where = f'{case} {chooser.taken}'
      before = util.snap(f)
      if op[0] == 'shift':
        g = f.shift(util.point(op[1], op[2]))
      elif op[0] == 'zoom':
        g = f.zoom(op[1])
      else:
        g = f.resize(op[1], op[2])
      ctx.check(util.same(before, util.snap(f)), 'view_modified', where)
      f = g
      box = apply(box, op)
      size = max(size, max(abs(x) for x in box) + 1)
      tol = 1e-12 * size
      ctx.check(np.abs(simlib.box(f) - box).max() < tol, 'view:' + op[0],
                f'{where} {f} {box}')
      ctx.check(abs(f.width - (box[2] - box[0])) < tol and
                abs(f.height - (box[3] - box[1])) < tol, 'view:size', where)
      ctx.check(abs(f.offset.x - (box[0] + box[2]) / 2) < tol and
                abs(f.offset.y - (box[1] + box[3]) / 2) < tol, 'view:offset', where)
      ctx.step()
    key = (case['view'], tuple(chooser.taken), case['first'])
    ctx.state(key)
    convert(ctx, f, box, size, where)
    ctx.trace()

  for _ in core.explore(history):
    pass


GRID = [(x, y) for x in (0.0, 0.25, 1.0, -0.5, 7.0) for y in (0.0, 1.0, 0.6, -3.0)]


def convert(ctx, f, box, size, where):
  import datetime as dt
  import numpy as np

  lo = np.array(box[:2])
  scale = np.array(box[2:]) - lo
  rel = np.array(GRID)
  mat = rel * scale + lo
  back = f.material_frame_to_microscope_frame
  fwd = f.microscope_frame_to_material_frame
  tol_m = 1e-11 * (size + 10 * np.abs(scale).max())
  tol_r = tol_m / np.abs(scale).min() + 1e-11

  def close(a, b, tol):
    a = np.asarray(a, float)
    return a.shape == np.shape(b) and (np.abs(a - b) <= tol).all()

  for name, fn, src, dst, tol in (
      ('to_material', fwd, rel, mat, tol_m), ('to_view', back, mat, rel, tol_r)):
    # Arrays.
    for n in (0, 1, len(src)):
      a = src[:n].copy()
      ctx.check(close(fn(a), dst[:n], tol) and (a == src[:n]).all(),
                name + ':array', f'{where} {n} {fn(a)}')
    ctx.check(close(fn(src[3]), dst[3], tol), name + ':vector', where)
    single = src.astype(np.float32)
    loose = 2e-6 * (size + 10 * np.abs(scale).max())
    ctx.check(close(fn(single), dst, loose if fn is fwd else
                    loose / np.abs(scale).min() + 1e-6), name + ':float32', where)
    for i in (0, 5, len(src) - 1):
      p = fn(util.point(*src[i]))
      ctx.check(close([p.x, p.y], dst[i], tol), name + ':point', where)
    # Grids.
    numbers = np.arange(len(src)) % 9 + 5
    g = util.grid(src, numbers)
    before = util.snap(g)
    out = fn(g)
    ctx.check(close(out.atom_positions, dst, tol) and
              (out.atomic_numbers == numbers).all(), name + ':grid', where)
    ctx.check(util.same(before, util.snap(g)), name + ':grid_modified', where)
    empty = fn(util.grid(np.zeros((0, 2)), []))
    ctx.check(empty.atom_positions.shape == (0, 2), name + ':empty_grid', where)
    # Beam controls.
    for v, c in ((60.0, 0.1), (None, None), (0.0, 2.5), (80.0, None)):
      b = util.control(*src[7], 3.25, voltage_kv=v, current_na=c)
      out = fn(b)
      ctx.check(close([out.position.x, out.position.y], dst[7], tol),
                name + ':control', where)
      ctx.check((out.dwell_time, out.voltage_kv, out.current_na) ==
                (dt.timedelta(seconds=3.25), v, c), name + ':control_settings',
                f'{where} {out}')
    ctx.step()
  # Both directions undo each other.
  ctx.check(close(back(fwd(rel)), rel, tol_r), 'round_trip:view', where)
  ctx.check(close(fwd(back(mat)), mat, tol_m), 'round_trip:material', where)
  # Grids and controls move by what they are told to.
  g = util.grid(mat, [6] * len(mat))
  moved = g.shift(np.array([1.5, -4.0]))
  ctx.check(close(moved.atom_positions, mat + [1.5, -4.0], tol_m) and
            close(g.atom_positions, mat, 0) and
            (moved.atomic_numbers == 6).all(), 'grid:shift', where)
  b = util.control(0.5, -0.25, 2.0, voltage_kv=None, current_na=3.0)
  m = b.shift(util.point(1.5, -4.0))
  ctx.check((m.position.x, m.position.y) == (2.0, -4.25) and
            (b.position.x, b.position.y) == (0.5, -0.25) and
            (m.dwell_time, m.voltage_kv, m.current_na) ==
            (b.dwell_time, None, 3.0), 'control:shift', f'{where} {m}')
