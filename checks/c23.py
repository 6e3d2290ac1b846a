"""C23: labels of transitions for rate learning."""

import itertools

from mc import util

PROPERTY = 'C23'
LEVEL = 'model_checking'
RULE = (
    'for every orientation of the lattice, beam position on a polar grid,'
    ' movement of the silicon (none, to each neighbour, to a second neighbour,'
    ' out of sight, vanished, doubled), pair of fields of view, order of the'
    ' atoms and displacement after, the datapoint (or its absence) is compared'
    ' with one computed with complex numbers; transitions that must be dropped'
    ' are interleaved with ones that must be kept in every order; data is'
    ' stacked for every choice of context; record files are loaded from every'
    ' kind of source. A state is the combination of these choices.'
)
ASSUMPTIONS = [
    'ties (beam equally near to two neighbours) and distances within 1e-3 of a'
    ' threshold are left out',
]

MOVES = ('stay', 'n0', 'n1', 'n2', 'second', 'far', 'vanish', 'double')
RADII = (0.2, 0.9, 1.42, 3.0)
VIEWS = (
    ((-10, -10, 10, 10), (-10, -10, 10, 10)),
    ((-10, -10, 10, 10), (-9, -12, 11, 8)),
    ((-8, -16, 12, 24), (-20, -20, 20, 20)),
)
ORDERS = (None, 'reversed', 1, 2)
CUTOFF = 1.42 / 2


def cases(tier):
  turns = 6 if tier == 'quick' else 12
  for angle in range(turns):
    for m in range(len(MOVES)):
      yield {'kind': 'labels', 'angle': angle / turns, 'move': m}
  for k in range(8):
    yield {'kind': 'distance', 'k': k}
  yield {'kind': 'controls'}
  for k in range(6):
    yield {'kind': 'coordination', 'k': k}
  for first in range(5):
    yield {'kind': 'interleaved', 'first': first}
  yield {'kind': 'stack'}
  yield {'kind': 'load'}


def run_case(ctx, case):
  globals()[case['kind']](ctx, case)


def arguments(**kwargs):
  from etils import epath
  from putting_dune.pipeline import train_rate_learner as trl

  return trl.Args(source_path=epath.Path('/nowhere'), workdir=epath.Path('/nowhere'),
                  **kwargs)


def in_view(p, fov):
  """Material coordinates to those of the microscope."""
  import numpy as np

  lo = np.array(fov[:2], float)
  hi = np.array(fov[2:], float)
  return (np.asarray(p, float) - lo) / (hi - lo)


def reorder(p, numbers, order):
  import numpy as np

  if order is None:
    return p, numbers
  if order == 'reversed':
    return p[::-1], numbers[::-1]
  index = np.random.RandomState(order).permutation(len(p))
  return p[index], numbers[index]


class Scene:
  """A transition given in material coordinates."""

  def __init__(self, angle, beam, move, views, orders=(None, None), shift=(0, 0),
               dwell=1.5, current=None, voltage=None, centre=(0.7, -0.4), rings=4,
               controls=1):
    import numpy as np
    from putting_dune import microscope_utils as mu

    self.sheet = util.honeycomb(rings, angle=angle, centre=centre)
    self.centre = np.array(centre, float)
    self.move, self.beam, self.dwell = move, beam, dwell
    self.current, self.voltage = current, voltage
    self.before = np.full(len(self.sheet), 6)
    self.before[0] = 14
    self.after = np.full(len(self.sheet), 6)
    target = {'stay': [0], 'n0': [1], 'n1': [2], 'n2': [3], 'second': [5],
              'far': [30], 'vanish': [], 'double': [0, 1]}[move]
    self.after[target] = 14
    self.shift = np.array(shift, float)
    p, n = reorder(in_view(self.sheet, views[0]), self.before, orders[0])
    q, k = reorder(in_view(self.sheet + self.shift, views[1]), self.after, orders[1])
    x, y = in_view(self.centre + beam, views[0])
    self.transition = mu.Transition(
        grid_before=util.grid(p, n), grid_after=util.grid(q, k),
        fov_before=util.fov(*views[0]), fov_after=util.fov(*views[1]),
        controls=tuple(util.control(x, y, dwell, current_na=current, voltage_kv=voltage)
                       for _ in range(controls)))

  def expected(self, cutoff=CUTOFF):
    """The datapoint, None if it is dropped, or False if it is too close to tell."""
    import numpy as np

    beam = complex(*self.beam)
    nb = [complex(*(self.sheet[j] - self.centre)) for j in (1, 2, 3)]
    d = sorted(abs(beam - z) for z in nb)
    if d[1] - d[0] < 1e-3:
      return False
    near = min(nb, key=lambda z: abs(beam - z))
    ccw = sorted(range(3), key=lambda j: (np.angle(nb[j] / near) + 1e-6) % (2 * np.pi))
    if self.move in ('vanish', 'double'):
      return None
    after = self.sheet + self.shift
    by_distance = np.argsort(np.linalg.norm(after - self.centre, axis=1))[:4]
    gaps = np.sort(np.linalg.norm(after - self.centre, axis=1))
    if gaps[4] - gaps[3] < 1e-3:
      return False
    if 14 not in self.after[by_distance]:
      return None
    distance = np.linalg.norm(
        self.sheet[:4, None] - after[by_distance][None], axis=-1).min(1).mean()
    if abs(distance - cutoff) < 1e-3:
      return False
    if distance > cutoff:
      return None
    now = after[self.after == 14][0]
    d = np.linalg.norm(self.sheet[:4] - now, axis=1)
    if np.sort(d)[1] - np.sort(d)[0] < 1e-3:
      return False
    place = int(np.argmin(d))
    return {
        'next_state': 0 if place == 0 else ccw.index(place - 1) + 1,
        'beam_pos': beam * abs(near) / near,
        'seconds_between': self.dwell,
        'current': self.current,
        'voltage': self.voltage,
    }


def convert(transitions, **kwargs):
  import contextlib
  import io
  from putting_dune.pipeline import train_rate_learner as trl

  with contextlib.redirect_stdout(io.StringIO()):
    return trl.transitions_to_datapoints(transitions, arguments(**kwargs))


def compare(ctx, scenes, key, **kwargs):
  """Converts the transitions of scenes in one call."""
  import numpy as np

  kept = []
  for s in scenes:
    want = s.expected(*([kwargs['neighbor_distance_cutoff']] if kwargs else []))
    if want is not False:
      kept.append((s, want))
  transitions = [s.transition for s, _ in kept]
  before = util.snap(transitions)
  got = convert(transitions, **kwargs)
  ctx.check(util.same(before, util.snap(transitions)), 'modified', f'{key}')
  want = [(s, w) for s, w in kept if w is not None]
  if not ctx.check(len(got) == len(want), 'count',
                   f'{key}: {len(got)} datapoints instead of {len(want)}'):
    return
  for g, (s, w) in zip(got, want):
    where = lambda: f'{key} {s.move} {s.beam}: {g} instead of {w}'
    ctx.check(int(g['next_state']) == w['next_state'], 'label', where)
    ctx.check(np.shape(g['beam_pos']) == (2,) and
              abs(complex(*g['beam_pos']) - w['beam_pos']) < 1e-6, 'beam', where)
    ctx.check(abs(g['seconds_between'] - w['seconds_between']) < 1e-9, 'seconds', where)
    ctx.check(g['current'] == w['current'] and g['voltage'] == w['voltage'],
              'settings', where)
    ctx.outcome(f'label {w["next_state"]}')
  ctx.outcome('dropped' if len(want) < len(kept) else 'all kept')
  ctx.step(len(kept))


def beams(radii=RADII, n=14):
  import cmath

  for r in radii:
    for k in range(n):
      z = cmath.rect(r, 0.05 + 6.283185307179586 * k / n)
      yield (z.real, z.imag)


def labels(ctx, case):
  import math

  angle = 2 * math.pi * case['angle'] + 0.02
  move = MOVES[case['move']]
  for v, views in enumerate(VIEWS):
    for o in range(4):
      orders = (ORDERS[o], ORDERS[(o * 3 + v) % 4])
      scenes = [
          Scene(angle, beam, move, views, orders, dwell=0.5 + 0.25 * (i % 5),
                current=None if i % 3 else 0.1 * i, voltage=None if i % 2 else 60.0 + i,
                centre=(0.7 + 0.1 * v, -0.4))
          for i, beam in enumerate(beams())]
      compare(ctx, scenes, (case['angle'], move, v, o))
      ctx.state(case['angle'], move, v, o)
  ctx.trace()


def distance(ctx, case):
  """Displacements of the sheet between the two observations."""
  import cmath

  k = case['k']
  for cutoff in (None, 0.3, 0.05, 5.0):
    kwargs = {} if cutoff is None else {'neighbor_distance_cutoff': cutoff}
    for move in ('stay', 'n0', 'n2'):
      for angle in (0.02, 1.3):
        scenes = []
        for r in (0.0, 0.02, 0.1, 0.25, 0.35, 0.6, 0.7, 0.8, 1.2, 3.3):
          z = cmath.rect(r, 0.785398 * k + 0.1)
          scenes.append(Scene(angle, (0.6, 0.5), move, VIEWS[k % 3],
                              (None, ORDERS[k % 4]), shift=(z.real, z.imag)))
        compare(ctx, scenes, (cutoff, move, angle, k), **kwargs)
        ctx.state('distance', cutoff, move, angle, k)
  ctx.trace()


def controls(ctx, case):
  for n in (0, 1, 2, 3):
    scene = Scene(0.3, (0.6, 0.5), 'n1', VIEWS[0], controls=n)
    got = convert([scene.transition])
    ctx.check(len(got) == (1 if n == 1 else 0), 'controls', f'{n}: {got}')
    ctx.state('controls', n)
    ctx.step()
  ctx.trace()


def coordination(ctx, case):
  """Silicon that is not bonded to exactly three atoms, or with too few atoms."""
  import cmath
  import numpy as np
  from putting_dune import microscope_utils as mu

  turn = 0.3 + case['k']
  cut = lambda m: util.honeycomb(4, angle=turn)[:m]
  ring = lambda n, r: [(z.real, z.imag) for z in (
      cmath.rect(r, turn + 6.2831853 * j / n) for j in range(n))]
  outside = [(5 * x, 5 * y) for x, y in ring(8, 1)]
  layouts = [
      ('threefold', cut(30), True),
      ('exactly ten', cut(10), True),
      ('nine', cut(9), False),
      ('four', cut(4), False),
      ('fourfold', [(0, 0)] + ring(4, 1.75) + outside, False),
      ('fourfold wide', [(0, 0)] + ring(4, 2.2) + outside, False),
      ('twofold', [(0, 0)] + ring(2, 1.42) + outside, False),
      ('fivefold', [(0, 0)] + ring(5, 1.6) + outside, False),
      ('stretched', [(0, 0)] + ring(3, 2.1) + outside, False),
      ('loose', [(0, 0)] + ring(3, 1.9) + outside, True),
      ('no silicon', cut(30), False),
      ('two silicon', cut(30), False),
  ]
  for name, p, kept in layouts:
    p = np.asarray(p, float)
    numbers = np.full(len(p), 6)
    numbers[0] = 14
    if name == 'no silicon':
      numbers[0] = 6
    if name == 'two silicon':
      numbers[7] = 14
    after = np.full(len(p), 6)
    after[1] = 14
    view = VIEWS[case['k'] % 3][0]
    for order in ORDERS:
      q, n = reorder(in_view(p, view), numbers, order)
      # An observation afterwards that is complete.
      full = util.honeycomb(4, angle=turn)
      m = np.full(len(full), 6)
      m[1] = 14
      g, k = (in_view(full, view), m) if len(p) < 11 or name == 'threefold' else (
          in_view(p, view), after)
      x, y = in_view((0.4, 0.3), view)
      t = mu.Transition(util.grid(q, n), util.grid(g, k), util.fov(*view), util.fov(*view),
                        (util.control(x, y),))
      got = convert([t])
      ctx.check(len(got) == (1 if kept else 0), 'coordination:' + name,
                f'{name} {case} {order}: {got}')
      ctx.state(case['k'], name, order)
      ctx.step()
  for atoms in (1, 2, 3):
    # Too few atoms afterwards.
    p = cut(30)
    numbers = np.full(30, 6)
    numbers[0] = 14
    view = VIEWS[0][0]
    t = mu.Transition(util.grid(in_view(p, view), numbers),
                      util.grid(in_view(p[:atoms], view), numbers[:atoms]),
                      util.fov(*view), util.fov(*view), (util.control(0.5, 0.52),))
    ctx.check(convert([t]) == [], 'coordination:few_after', f'{atoms}')
    ctx.step()
  ctx.trace()


def interleaved(ctx, case):
  """Dropped transitions leave the others as they are, in their order."""
  kinds = [
      dict(move='stay', beam=(0.6, 0.5)),
      dict(move='n1', beam=(-0.9, 0.3)),
      dict(move='vanish', beam=(0.6, 0.5)),
      dict(move='far', beam=(0.1, 0.5)),
      dict(move='n2', beam=(1.0, -2.0)),
  ]
  for rest in itertools.product(range(5), repeat=3 if ctx.deep else 2):
    key = (case['first'],) + rest
    scenes = [Scene(0.3 + i, views=VIEWS[i % 3], dwell=1.0 + i, **kinds[k])
              for i, k in enumerate(key)]
    compare(ctx, scenes, key)
    ctx.state('list', key)
  compare(ctx, [], 'nothing')
  ctx.trace()


def stack(ctx, case):
  import numpy as np
  from putting_dune.pipeline import train_rate_learner as trl

  for n in (1, 2, 3, 7):
    data = [trl.DataPoint(next_state=(i * 2) % 4, beam_pos=np.array([0.5 * i, -i]),
                          seconds_between=1.5 + i, current=0.25 * i, voltage=60.0 + i)
            for i in range(n)]
    for current, voltage, dwell, k in itertools.product((0, 1), (0, 1), (0, 1), (None, 3, 4)):
      kwargs = {} if k is None else {'num_neighbors': k}
      got = util.pure(ctx, 'stack', trl.stack_data, data, bool(current), bool(voltage),
                      bool(dwell), **kwargs)
      columns = ([[d['current'] for d in data]] if current else []) + (
          [[d['voltage'] for d in data]] if voltage else []) + (
              [[d['seconds_between'] for d in data]] if dwell else [])
      where = f'{n} {current} {voltage} {dwell}: {got}'
      ctx.check(set(got) == {'next_state', 'position', 'dt', 'rates', 'context'},
                'stack:keys', where)
      ctx.check(util.close(got['next_state'], [d['next_state'] for d in data]) and
                util.close(got['position'], [d['beam_pos'] for d in data]) and
                util.close(got['dt'], [d['seconds_between'] for d in data]),
                'stack:content', where)
      ctx.check(util.close(got['rates'], np.zeros((n, k or 3))), 'stack:rates', where)
      ctx.check(got['context'] is None if not columns else
                util.close(got['context'], np.array(columns).T), 'stack:context', where)
      ctx.state('stack', n, current, voltage, dwell, k)
      ctx.step()
  ctx.trace()


def load(ctx, case):
  import os
  from etils import epath
  from mc import boot
  from putting_dune import io
  from putting_dune import microscope_utils as mu
  from putting_dune.pipeline import train_rate_learner as trl

  folder = boot.scratch_dir('pdmc_c23_')
  files = {}
  for i, count in enumerate((0, 1, 3)):
    name = epath.Path(os.path.join(folder, f'{i}.tfrecords'))
    files[name] = [
        mu.Trajectory([util.observation(
            util.grid([[i, j]], [14]), util.fov(0, 0, 10, 10), (util.control(0.5, 0.5),))])
        for j in range(count)]
    io.write_records(name, files[name])
  tags = lambda ts: [tuple(t.observations[0].grid.atom_positions[0]) for t in ts]
  for order in itertools.permutations(files):
    for n in range(4):
      for wrap in (list, tuple):
        got = trl.load_trajectories_from_records(wrap(order[:n]))
        want = [x for f in order[:n] for x in tags(files[f])]
        ctx.check(tags(got) == want, 'load:sequence', f'{order[:n]} {got}')
        ctx.state('load', tuple(f.name for f in order[:n]))
        ctx.step()
  for f in files:
    ctx.check(tags(trl.load_trajectories_from_records(f)) == tags(files[f]),
              'load:file', f'{f}')
    ctx.step()
  got = trl.load_trajectories_from_records(epath.Path(folder))
  ctx.check(sorted(tags(got)) == sorted(x for f in files.values() for x in tags(f)),
            'load:directory', f'{got}')
  ctx.trace()
