"""C13: serialising data and reading it back."""

import itertools

from mc import util

PROPERTY = 'C13'
LEVEL = 'model_checking'
RULE = (
    'every combination of the variants of each field (no, one, several atoms;'
    ' extreme positions; unset, zero and other voltages and currents; no, one,'
    ' several controls; images that are unset or arrays of several types, ranks'
    ' and memory layouts, also empty) for every message, nested up to labelled'
    ' trajectories, is written to a message and to bytes and read back; a second'
    ' round trip must change nothing. A state is (message, variants).'
)
ASSUMPTIONS = [
    'positions and times are stored in single precision; times to a microsecond'
]


def cases(tier):
  for name in ('grid', 'control', 'fov', 'drift'):
    yield {'kind': name}
  for g in range(5):
    for c in range(5):
      yield {'kind': 'observation', 'grid': g, 'controls': c}
  for c in range(5):
    for a in range(9):
      yield {'kind': 'transition', 'controls': c, 'image': a}
  for n in range(4):
    for o in range(6):
      yield {'kind': 'trajectory', 'n': n, 'offset': o}
      yield {'kind': 'labelled', 'n': n, 'offset': o}


def grids():
  import numpy as np
  from putting_dune import microscope_utils as mu

  return [
      util.grid([[0.25, 0.75]], [14]),
      util.grid(np.zeros((0, 2)), []),
      util.grid([[0.1, -1e6], [1 / 3, 1e-7], [12345.678, 0.9999999]], [6, 14, 118]),
      mu.AtomicGrid(np.array([[1, 2], [0.5, -3.5]], np.float32),
                    np.array([6, 7], np.int64)),
      util.grid([[0.5, 0.5], [0.5, 0.5]], [1, 6]),
  ]


def controls():
  return [
      util.control(0.3, 0.7, 1.5),
      util.control(-2.25, 1e3, 0.0, voltage_kv=None, current_na=None),
      util.control(0.1, 0.2, 0.001, voltage_kv=0.0, current_na=None),
      util.control(1 / 3, 0.0, 86400.25, voltage_kv=None, current_na=0.0),
      util.control(0.5, 0.5, 12.345678, voltage_kv=79.9, current_na=1e-4),
  ]


def control_lists():
  c = controls()
  return [(), (c[0],), (c[1],), (c[2], c[3]), tuple(c)]


def fovs():
  return [util.fov(0, 0, 20, 20), util.fov(-7.5, 1e4, 12.5, 1e4 + 3),
          util.fov(-1 / 3, -2 / 3, 0.0, 1e-3)]


def images():
  import numpy as np

  base = np.arange(24).reshape(4, 6) * 10
  return [
      None,
      base.astype(np.float32) / 7,
      base.astype(np.float64) / 7,
      base.astype(np.uint8),
      np.asfortranarray(base.astype(np.int32)),
      (base.astype(np.float32) / 3)[::2, ::-1],
      np.zeros((3, 5), np.float32),
      np.full((2, 2, 3), np.float32(-1.5)),
      np.zeros((0, 4), np.float32),
  ]


def single(x):
  import numpy as np

  return float(np.float32(x))


def eq_float(a, b):
  """b is a after being stored in single precision."""
  if a is None or b is None:
    return a is None and b is None
  return abs(single(a) - float(b)) <= 1e-6 * abs(a) * 0.2


def eq_time(a, b):
  a, b = a.total_seconds(), b.total_seconds()
  return abs(a - b) <= 1e-6 + 1.2e-7 * abs(a)


def eq_grid(a, b):
  import numpy as np

  p, q = np.asarray(a.atom_positions, float), np.asarray(b.atom_positions, float)
  return p.shape == q.shape and bool(
      (np.abs(p - q) <= 1.2e-7 * np.abs(p)).all()) and (
          list(a.atomic_numbers) == list(b.atomic_numbers))


def eq_fov(a, b):
  from mc import simlib
  import numpy as np

  p, q = simlib.box(a), simlib.box(b)
  return bool((np.abs(p - q) <= 1.2e-7 * np.abs(p)).all())


def eq_control(a, b):
  return (eq_float(a.position.x, b.position.x)
          and eq_float(a.position.y, b.position.y)
          and eq_time(a.dwell_time, b.dwell_time)
          and eq_float(a.voltage_kv, b.voltage_kv)
          and eq_float(a.current_na, b.current_na))


def eq_controls(a, b):
  return len(a) == len(b) and all(eq_control(x, y) for x, y in zip(a, b))


def eq_image(a, b):
  import numpy as np

  if a is None or b is None:
    return a is None and b is None
  return isinstance(b, np.ndarray) and a.shape == b.shape and (
      a.dtype == b.dtype and bool((a == b).all()))


def eq_observation(a, b):
  return (eq_grid(a.grid, b.grid) and eq_fov(a.fov, b.fov)
          and eq_controls(a.controls, b.controls)
          and eq_time(a.elapsed_time, b.elapsed_time)
          and eq_image(a.image, b.image) and eq_image(a.label_image, b.label_image))


def eq_drift(a, b):
  import numpy as np

  return a.jitter.shape == b.jitter.shape and bool(
      (np.abs(a.jitter - b.jitter) <= 1.2e-7 * np.abs(a.jitter)).all()
      and np.shape(b.drift) == (2,)
      and (np.abs(a.drift - b.drift) <= 1.2e-7 * np.abs(a.drift)).all())


def eq_trajectory(a, b):
  return len(a.observations) == len(b.observations) and all(
      eq_observation(x, y) for x, y in zip(a.observations, b.observations))


def round_trip(ctx, value, equal, where, second=True):
  cls = type(value)
  before = util.snap(value)
  message = value.to_proto()
  ctx.check(isinstance(message, cls.ProtoMessage), 'message_type', where)
  ctx.check(util.same(before, util.snap(value)), 'modified', where)
  out = cls.from_proto(message)
  ctx.check(isinstance(out, cls) and equal(value, out), 'round_trip:' + cls.__name__,
            lambda: f'{where}\n{value}\n{out}')
  data = message.SerializeToString(deterministic=True)
  text = cls.from_proto_string(data)
  ctx.check(equal(value, text), 'round_trip_bytes:' + cls.__name__, where)
  if second:
    again = out.to_proto().SerializeToString(deterministic=True)
    ctx.check(again == data, 'second_round_trip:' + cls.__name__, where)
  ctx.step()


def observations():
  import datetime as dt
  from putting_dune import microscope_utils as mu

  i, g, c, f = images(), grids(), control_lists(), fovs()
  return [
      mu.MicroscopeObservation(g[k % 5], f[k % 3], c[k % 5],
                               dt.timedelta(seconds=1.7 * k), i[k % 9],
                               i[(3 * k + 2) % 9])
      for k in range(9)
  ]


def run_case(ctx, case):
  import datetime as dt
  import numpy as np
  from putting_dune import microscope_utils as mu

  kind = case['kind']
  if kind == 'grid':
    for k, g in enumerate(grids()):
      round_trip(ctx, g, eq_grid, f'grid {k}')
      ctx.state(kind, k)
  elif kind == 'control':
    for k, (v, a, x, d) in enumerate(itertools.product(
        (None, 0.0, 60, 79.9, -1.5), (None, 0.0, 0.1, 3), (0.0, 1 / 3, -7e3),
        (0.0, 1e-3, 1.5, 3600.0, 1e5))):
      round_trip(ctx, util.control(x, 1 - x, d, voltage_kv=v, current_na=a),
                 eq_control, f'control {v} {a} {x} {d}')
      ctx.state(kind, v, a, x, d)
  elif kind == 'fov':
    for k, f in enumerate(fovs()):
      round_trip(ctx, f, eq_fov, f'fov {k}')
      ctx.state(kind, k)
  elif kind == 'drift':
    for n in (0, 1, 3):
      for d in itertools.product((0.0, -0.75, 0.123456, 2000.5), repeat=2):
        for dtype in (np.float32, np.float64):
          jitter = (np.arange(2 * n).reshape(n, 2) * 0.37 - 0.4).astype(dtype)
          round_trip(ctx, mu.Drift(jitter=jitter, drift=np.array(d, dtype)), eq_drift,
                     f'drift {n} {d}')
          ctx.state(kind, n, d)
  elif kind == 'observation':
    g, c = grids()[case['grid']], control_lists()[case['controls']]
    for i, j in itertools.product(range(9), repeat=2):
      for f in fovs()[:3 if ctx.deep or i == j else 1]:
        o = mu.MicroscopeObservation(g, f, c, dt.timedelta(seconds=0.3 + 7 * i),
                                     images()[i], images()[j])
        round_trip(ctx, o, eq_observation, f'{case} {i} {j}')
        ctx.state(kind, case, i, j)
  elif kind == 'transition':
    c = control_lists()[case['controls']]
    a = case['image']

    def equal(x, y):
      return (eq_grid(x.grid_before, y.grid_before)
              and eq_grid(x.grid_after, y.grid_after)
              and eq_fov(x.fov_before, y.fov_before)
              and eq_fov(x.fov_after, y.fov_after)
              and eq_controls(x.controls, y.controls)
              and eq_image(x.image_before, y.image_before)
              and eq_image(x.image_after, y.image_after)
              and eq_image(x.label_image_before, y.label_image_before)
              and eq_image(x.label_image_after, y.label_image_after))

    picks = (0, 1, 3, 7)
    for k, (b, l, m) in enumerate(itertools.product(picks, repeat=3)):
      g = grids()
      t = mu.Transition(g[k % 5], g[(k + 2) % 5], fovs()[k % 3], fovs()[(k + 1) % 3],
                        c, images()[a], images()[b], images()[l], images()[m])
      round_trip(ctx, t, equal, f'{case} {b} {l} {m}')
      ctx.state(kind, case, b, l, m)
  else:
    o = observations()
    o = tuple(o[(case['offset'] + 2 * k) % 9] for k in range(case['n']))
    t = mu.Trajectory(observations=o)
    if kind == 'trajectory':
      round_trip(ctx, t, eq_trajectory, f'{case}')
      ctx.state(kind, case)
    else:
      for drifts in range(4):
        d = [mu.Drift(jitter=np.full((k, 2), 0.25 * k), drift=np.array([k - .5, 2. / 3]))
             for k in range(drifts)]
        lab = mu.LabeledAlignmentTrajectory(trajectory=t, drifts=d)
        round_trip(
            ctx, lab,
            lambda x, y: eq_trajectory(x.trajectory, y.trajectory)
            and len(x.drifts) == len(y.drifts)
            and all(eq_drift(p, q) for p, q in zip(x.drifts, y.drifts)),
            f'{case} {drifts}')
        ctx.state(kind, case, drifts)
  ctx.trace()
  ctx.outcome(kind)
