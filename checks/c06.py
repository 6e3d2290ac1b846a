"""C06: which atoms an observation shows, and where."""

from mc import util

PROPERTY = 'C06'
LEVEL = 'model_checking'
RULE = (
    'selection: every rectangle from a grid of corners (square, oblong, thin,'
    ' far away, covering nothing or everything, borders through atoms), every'
    ' tolerance and every layout of atoms, through both selectors, against a'
    ' brute-force loop; episodes: every history of exposures up to the depth,'
    ' comparing the observation with the material. A state is (layout,'
    ' rectangle, tolerance) or (episode, silicon site, view).'
)
ASSUMPTIONS = ['the coordinates of the layouts are exact binary fractions']

LOWS = (-8.0, -2.0, -0.5, 0.0, 1.25, 3.0, 1000.0)
SIZES = (0.5, 1.0, 3.75, 8.0, 40.0)
TOLERANCES = (0, 0.0, 0.25, 2.0, -0.125, -1.5)


def layouts():
  import numpy as np

  lattice = [(x * 0.5, y * 0.75) for x in range(-4, 9) for y in range(-3, 7)]
  return {
      'lattice': (np.array(lattice), np.array(
          [14 if i % 7 == 3 else 6 for i in range(len(lattice))])),
      'float32': (np.array(lattice, dtype=np.float32), np.array(
          [6 if i % 5 else 14 for i in range(len(lattice))], dtype=np.int32)),
      'single': (np.array([[1.25, 3.0]]), np.array([14])),
      'pair': (np.array([[1000.5, 1001.0], [-2.0, 3.0]]), np.array([6, 7])),
      'none': (np.zeros((0, 2)), np.zeros((0,), int)),
  }


def cases(tier):
  for name in ('lattice', 'float32', 'single', 'pair', 'none'):
    for w in SIZES:
      yield {'kind': 'select', 'layout': name, 'w': w}
  for columns in (12, 31):
    for i in range(4):
      yield {'kind': 'sheet', 'columns': columns, 'i': i}
  for first in range(4):
    for side in (0.0, 0.9):
      yield {'kind': 'episode', 'first': first, 'side': side,
             'depth': 4 if tier != 'quick' else 3}


def inside(p, n, lo, hi):
  return sorted(
      (float(x), float(y), int(z)) for (x, y), z in zip(p, n)
      if lo[0] <= x <= hi[0] and lo[1] <= y <= hi[1])


def listing(grid):
  import numpy as np

  p = np.asarray(grid.atom_positions, float)
  n = np.asarray(grid.atomic_numbers)
  assert p.shape == (len(n), 2), (p.shape, n.shape)
  return sorted((float(x), float(y), int(z)) for (x, y), z in zip(p, n))


def agree(a, b, tol):
  return len(a) == len(b) and all(
      abs(x[0] - y[0]) <= tol and abs(x[1] - y[1]) <= tol and x[2] == y[2]
      for x, y in zip(a, b))


def normalised(atoms, lo, hi):
  # The order of the listing is kept: the map is monotone.
  return [((x - lo[0]) / (hi[0] - lo[0]), (y - lo[1]) / (hi[1] - lo[1]), z)
          for x, y, z in atoms]


def compare(ctx, material, grid, lo, hi, where, sort_tol=1e-9):
  f = util.fov(lo[0], lo[1], hi[0], hi[1])
  seen = material.get_atoms_in_bounds(f.lower_left, f.upper_right)
  want = inside(grid.atom_positions, grid.atomic_numbers, lo, hi)
  ctx.check(agree(listing(seen), normalised(want, lo, hi), sort_tol),
            'observed_atoms', lambda: f'{where} {lo} {hi} {len(want)} expected')
  return want


def run_case(ctx, case):
  import numpy as np
  from mc import rng, simlib
  from putting_dune import graphene
  from putting_dune import microscope_utils as mu

  if case['kind'] == 'episode':
    return episode(ctx, case)
  material = graphene.PristineSingleDopedGraphene(grid_columns=case.get('columns', 6))
  material.reset(rng.ScriptedRng(uniforms=[0.3, 0.6, case.get('i', 0) * 0.23]))
  if case['kind'] == 'sheet':
    grid = material.grid
    p = grid.atom_positions
    before = util.snap(grid)
    for k in range(40):
      w, h = 1.0 + 3.7 * (k % 7), 1.5 + 2.9 * (k % 5)
      at = p[(k * 37) % len(p)]
      for lo in (at - [w / 2, h / 2], at - [w, 0.3 * h], at, p.min(0) - [w / 3, h]):
        want = compare(ctx, material, grid, lo, lo + [w, h], f'{case} {k}', 1e-7)
        fovd = util.fov(lo[0], lo[1], lo[0] + w, lo[1] + h)
        for tol in (0, 0.7, -0.4):
          sel = fovd.get_atoms_in_bounds(grid, tol)
          t = np.array([tol, tol])
          ctx.check(
              agree(listing(sel),
                    inside(p, grid.atomic_numbers, lo - t, lo + [w, h] + t), 0),
              'selected_atoms', f'{case} {k} {tol}')
        ctx.state('sheet', case['columns'], case['i'], k, len(want))
        ctx.step()
    ctx.check(util.same(before, util.snap(grid)), 'grid_modified', f'{case}')
    ctx.trace()
    return

  p, n = layouts()[case['layout']]
  grid = mu.AtomicGrid(p, n)
  before = util.snap(grid)
  material.grid = grid
  for h in SIZES:
    for x in LOWS:
      for y in LOWS:
        lo, hi = (x, y), (x + case['w'], y + h)
        want = compare(ctx, material, grid, lo, hi, f'{case}')
        f = util.fov(lo[0], lo[1], hi[0], hi[1])
        for tol in TOLERANCES:
          sel = f.get_atoms_in_bounds(grid, tol)
          exact = inside(p, n, (x - tol, y - tol), (hi[0] + tol, hi[1] + tol))
          ctx.check(agree(listing(sel), exact, 0), 'selected_atoms',
                    lambda: f'{case} {lo} {hi} {tol}: {listing(sel)} {exact}')
          ctx.state(case['layout'], lo, hi, tol)
          ctx.step()
        sel = f.get_atoms_in_bounds(grid)
        ctx.check(agree(listing(sel), want, 0), 'selected_atoms:default',
                  f'{case} {lo} {hi}')
        ctx.outcome('empty' if not want else 'some')
  ctx.check(util.same(before, util.snap(grid)), 'grid_modified', f'{case}')
  ctx.trace()


def episode(ctx, case):
  import numpy as np
  from checks import c04
  from mc import core, rng, simlib

  moves = ((0, 0), (1, 1), (5, 3), (11, 5))

  def history(chooser):
    sim, mover, rec, obs = c04.build(case['side'], (0.4, 0.8, 0.37), 24)
    del rec
    kept = []

    def verify():
      b = simlib.box(obs.fov)
      grid = sim.material.grid
      # Atoms within a rounding error of the border may fall on either side.
      seen = obs.grid.atom_positions
      inner = inside(grid.atom_positions, grid.atomic_numbers,
                     b[:2] + 1e-9, b[2:] - 1e-9)
      outer = inside(grid.atom_positions, grid.atomic_numbers,
                     b[:2] - 1e-9, b[2:] + 1e-9)
      where = f'{case} {chooser.taken}'
      ctx.check(len(inner) <= len(seen) <= len(outer), 'episode:number',
                f'{where} {len(seen)}')
      if len(inner) == len(outer):
        ctx.check(agree(listing(obs.grid), normalised(inner, b[:2], b[2:]), 1e-7),
                  'episode:atoms', where)
      kept.append((obs, util.snap(obs)))
      ctx.state('episode', case['side'], np.round(b, 4).tolist(), len(inner))

    verify()
    for k in range(case['depth']):
      c = chooser.choose('move', len(moves)) if k else case['first']
      if k == 2 and c == 0:
        obs = sim.reset(rng.ScriptedRng(uniforms=[0.2, 0.1, 0.7, 0.4]))
      else:
        obs = c04.expose(sim, mover, *moves[c])
      verify()
      ctx.step()
    ctx.check(all(util.same(util.snap(o), s) for o, s in kept),
              'episode:observation_changed_later', f'{case} {chooser.taken}')
    ctx.trace()

  for _ in core.explore(history):
    pass
