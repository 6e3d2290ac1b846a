"""C28: the iterative aligner follows the drift of a sheet."""

import itertools

from mc import util

PROPERTY = 'C28'
LEVEL = 'model_checking'
RULE = (
    'every sequence of observations up to the depth, each displaced by one of a'
    ' set of drifts and jittered, with the silicon moving and atoms in another'
    ' order, for every orientation and configuration (history length, trimming,'
    ' kind and accumulation of merging), with resets at every point, against'
    ' the true displacements and lattice. A state is (orientation,'
    ' configuration, sequence).'
)
ASSUMPTIONS = [
    'displacements are less than a third of a bond, the jitter a fiftieth',
    'no bond points exactly left (angles wrap there)',
]

DRIFTS = ((0.0, 0.0), (0.3, 0.2), (-0.4, 0.15), (0.05, -0.45), (0.2, -0.1))
ANGLES = (0.02, 0.25, 0.8, 1.05, 1.3, 1.85)


def configurations():
  out = []
  for history, trim, accumulate, clique in itertools.product(
      (1, 2, 10), (0, 0.5), (False, True), (False, True)):
    if not (accumulate and clique):
      out.append({'history_length': history, 'trim': trim,
                  'accumulate_merged': accumulate, 'clique_merging': clique})
  return out


def cases(tier):
  n = len(configurations())
  for k in range(n):
    for first in range(len(DRIFTS)):
      yield {'kind': 'follow', 'configuration': k, 'first': first,
             'depth': 3 if tier == 'quick' else 4}
  for k in range(0, n, 3):
    yield {'kind': 'resets', 'configuration': k}
  for angle in range(len(ANGLES)):
    yield {'kind': 'lattice', 'angle': angle}
  yield {'kind': 'scale'}


def run_case(ctx, case):
  globals()[case['kind']](ctx, case)


def sheet(angle, half=7.5):
  import numpy as np

  p = util.honeycomb(8, angle=angle)
  return p[(np.abs(p) < half).all(1)]


def observe(base, drift, t, silicon):
  import numpy as np

  r = np.random.RandomState(7 + t)
  p = base + np.array(drift) + r.uniform(-0.02, 0.02, size=base.shape)
  numbers = np.full(len(p), 6)
  numbers[silicon] = 14
  index = r.permutation(len(p)) if t else np.arange(len(p))
  return util.grid(p[index], numbers[index])


def verify(ctx, base, grid, merged, offset, drift, silicon, where, numbers_too=True):
  import numpy as np

  ctx.check(np.shape(offset) == (2,) and np.abs(offset - np.array(drift)).max() < 0.02,
            'drift', lambda: f'{where}: {offset} instead of {drift}')
  p, n = np.asarray(merged.atom_positions), np.asarray(merged.atomic_numbers)
  ctx.check(p.shape == base.shape and n.shape == (len(base),), 'merged:count',
            lambda: f'{where}: {p.shape} instead of {base.shape}')
  d = np.linalg.norm(p[:, None] - base[None], axis=-1)
  site = d.argmin(1)
  ctx.check(sorted(site) == list(range(len(base))) and d.min(1).max() < 0.06,
            'merged:positions', lambda: f'{where}: {d.min(1).max()}')
  ctx.check(list(site[n == 14]) == [silicon] and set(n) == {6, 14}, 'merged:numbers',
            lambda: f'{where}: silicon at {site[n == 14]} instead of {silicon}')


HOPS = (0, 1, 1, 4, 0)


def follow(ctx, case):
  import numpy as np
  from putting_dune import alignment

  configuration = configurations()[case['configuration']]
  for i, rest in enumerate(itertools.product(range(len(DRIFTS)), repeat=case['depth'] - 1)):
    angle = ANGLES[(i + case['first'] + case['configuration']) % len(ANGLES)]
    base = sheet(angle)
    aligner = alignment.IterativeAlignmentFiltering(**configuration)
    np.random.seed(0)  # For the clusters.
    grid = observe(base, (0, 0), 0, HOPS[0])
    before = util.snap(grid)
    merged, offset = aligner(grid)
    ctx.check(util.close(offset, (0, 0)) and util.same(util.snap(merged), before), 'first',
              f'{case}: {offset}')
    for t, k in enumerate((case['first'],) + rest, 1):
      grid = observe(base, DRIFTS[k], t, HOPS[t])
      before = util.snap(grid)
      merged, offset = aligner(grid)
      ctx.check(util.same(before, util.snap(grid)), 'modified', f'{case} {rest}')
      verify(ctx, base, grid, merged, offset, DRIFTS[k], HOPS[t],
             f'{case} {rest} step {t}')
      ctx.step()
    ctx.state(case['configuration'], angle, (case['first'],) + rest)
    ctx.trace()


def resets(ctx, case):
  """After a reset the next observation is the reference."""
  import numpy as np
  from putting_dune import alignment

  configuration = configurations()[case['configuration']]
  for word in util.sequences(range(3), 4 if not ctx.deep else 5, 2):
    # 0: reset, then a sheet turned otherwise; 1, 2: drifts.
    np.random.seed(0)
    aligner = alignment.IterativeAlignmentFiltering(**configuration)
    turn = 0
    base = sheet(ANGLES[0])
    started = False
    for t, w in enumerate(word):
      if w == 0:
        aligner.reset()
        turn += 1
        base = sheet(ANGLES[turn % len(ANGLES)] ) + [3.0 * turn, -40.0 * turn]
        started = False
        continue
      grid = observe(base, DRIFTS[w] if started else (0, 0), t, 2)
      merged, offset = aligner(grid)
      where = f'{case} {word} {t}'
      if started:
        verify(ctx, base, grid, merged, offset, DRIFTS[w], 2, where)
      else:
        ctx.check(util.close(offset, (0, 0)) and util.same(
            util.snap(merged), util.snap(grid)), 'reset', f'{where}: {offset}')
      started = True
      ctx.step()
    ctx.state('resets', case['configuration'], word)
    ctx.trace()


def lattice(ctx, case):
  """Classes do not depend on the order of atoms and where the sheet is."""
  import numpy as np
  from putting_dune import alignment

  base = sheet(ANGLES[case['angle']])
  base = base + np.random.RandomState(1).uniform(-0.02, 0.02, size=base.shape)
  np.random.seed(0)
  clusters = alignment.get_lattice_clusterer(base)
  first = alignment.classify_lattice_types(base, clusters)
  ctx.check(first.shape == (len(base),) and set(first) <= {0, 1}, 'classes', f'{first}')
  for order in range(6):
    index = np.random.RandomState(order).permutation(len(base))
    for move in ((0, 0), (30, -7), (-1e3, 1e3)):
      before = util.snap(base)
      got = alignment.classify_lattice_types(base[index] + np.array(move), clusters)
      ctx.check((got == first[index]).all(), 'classes:order', f'{case} {order} {move}')
      ctx.check(util.same(before, util.snap(base)), 'classes:modified', f'{case}')
      ctx.step()
    ctx.state('lattice', case['angle'], order)
  # Jitter that changes which bond is the shortest does not change the classes
  # of atoms that have all their bonds.
  for seed in range(6):
    p = base + np.random.RandomState(seed).uniform(-0.02, 0.02, size=base.shape)
    got = alignment.classify_lattice_types(p, clusters)
    bonds = (np.linalg.norm(base[:, None] - base[None], axis=-1) < 1.6).sum(1) - 1
    ctx.check((got == first)[bonds == 3].all(), 'classes:jitter',
              lambda: f'{case} {seed}: {np.flatnonzero(got != first)}')
    ctx.step()
  ctx.trace()


def scale(ctx, case):
  import numpy as np
  from putting_dune import alignment

  for angle in ANGLES:
    for half in (5.5, 7.5, 12.0):
      p = sheet(angle, half)
      for factor in (0.05, 0.5, 1.0, 1.4, 28.0):
        for noise in (0.0, 0.02):
          q = (p + np.random.RandomState(1).uniform(-noise, noise, size=p.shape)) * factor
          got = util.pure(ctx, 'scale', alignment.get_graphene_scale_factor, q)
          ctx.check(abs(got / factor - 1) < 0.03, 'scale', f'{angle} {half} {factor}: {got}')
          ctx.step()
      ctx.state('scale', angle, half)
  ctx.trace()
