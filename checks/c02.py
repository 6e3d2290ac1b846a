"""C02: what the simulated material can look like."""

from mc import util

PROPERTY = 'C02'
LEVEL = 'model_checking'
RULE = (
    'for every rate function, sheet offset/rotation and sheet size: every'
    ' sequence, up to the depth, of exposures that cause 0 to 3 transitions'
    ' with every successor choice (three quantiles), resets in between; the'
    ' reference is the honeycomb lattice written independently. A state is'
    ' (sheet, silicon site).'
)
ASSUMPTIONS = ['the silicon stays at least two bonds away from the sheet edge']


def cases(tier):
  deep = tier != 'quick'
  for name in ('simple', 'gmm', 'prior'):
    for uniforms in ((0.5, 0.5, 0.0), (0.0, 0.999, 0.13), (0.999, 0.2, 0.77)):
      if not deep and name == 'prior' and uniforms[0]:
        continue
      for first in range(7):
        yield {'kind': 'walk', 'rates': name, 'uniforms': list(uniforms),
               'columns': 14, 'depth': 4 if deep else 3, 'first': first}
  for first in range(7):
    yield {'kind': 'walk', 'rates': 'simple', 'uniforms': [0.9, 0.1, 0.31],
           'columns': 50, 'depth': 3 if deep else 2, 'first': first}
  for uniforms in ((0.3, 0.3, 0.3), (0.0, 0.0, 0.0)):
    yield {'kind': 'reset', 'uniforms': list(uniforms), 'columns': 12}
  yield {'kind': 'varied', 'columns': 8, 'steps': 11 if tier == 'quick' else 23}
  yield {'kind': 'unready'}
  for columns in (6, 9, 10, 13, 21, 50, 60):
    for k in range(6 if tier == 'quick' else 16):
      yield {'kind': 'sheet', 'columns': columns,
             'uniforms': [(k * 0.37) % 1, (k * 0.61) % 1, (k * 0.21) % 1]}


def check_sheet(ctx, grid, columns):
  """The sheet is a honeycomb with bond 1.42 around the origin."""
  import numpy as np
  from mc import simlib

  p = np.asarray(grid.atom_positions)
  n = np.asarray(grid.atomic_numbers)
  ctx.check(p.ndim == 2 and p.shape == (n.size, 2), 'sheet:shape', f'{p.shape}')
  ctx.check(np.isfinite(p).all(), 'sheet:finite')
  ctx.check((n == 14).sum() == 1 and ((n == 6) | (n == 14)).all(),
            'sheet:one_silicon', f'{np.unique(n, return_counts=True)}')
  # Every atom far from the edges has exactly three bonds of 1.42, at 120
  # degrees; no two atoms are closer than a bond.
  d = np.linalg.norm(p[:, None] - p[None], axis=-1)
  np.fill_diagonal(d, np.inf)
  ctx.check(d.min() > simlib.BOND - 2e-3, 'sheet:too_close', f'{d.min()}')
  bonds = d < 1.2 * simlib.BOND
  ctx.check(np.abs(d[bonds] - simlib.BOND).max() < 2e-3, 'sheet:bond_length',
            f'{d[bonds].min()} {d[bonds].max()}')
  ctx.check(bonds.sum(1).max() == 3, 'sheet:threefold', f'{bonds.sum(1).max()}')
  side = columns * simlib.BOND
  inner = np.linalg.norm(p, axis=1) < side / 2 - 3 * simlib.BOND
  if inner.any():
    ctx.check((bonds[inner].sum(1) == 3).all(), 'sheet:hole',
              lambda: f'{p[inner][bonds[inner].sum(1) != 3]}')
  if inner.sum():
    # The density of graphene, over a disc: no atom is missing.
    radius = side / 2 - 3 * simlib.BOND
    density = 4 / (3 * np.sqrt(3) * simlib.BOND**2)
    want = density * np.pi * radius**2
    ctx.check(abs(inner.sum() - want) < 8 + 0.1 * want, 'sheet:density',
              f'{inner.sum()} {want}')
  (si,) = simlib.si_index(grid)
  dist = np.linalg.norm(p, axis=1)
  ctx.check(dist[si] <= dist.min() + 1e-6, 'sheet:silicon_centre',
            f'{dist[si]} {dist.min()}')


def varied(ctx, case):
  """Over all draws, every orientation and every offset comes up."""
  import numpy as np
  from mc import simlib

  n = case['steps']
  fractions = (np.arange(n) + 0.5) / n
  where, turned = [], []
  for draws in util.sequences(tuple(fractions), 3, 3):
    m = make(dict(case, rates='simple', uniforms=[float(d) for d in draws]))
    p = np.asarray(m.grid.atom_positions)
    (si,) = simlib.si_index(m.grid)
    delta = p[simlib.neighbours(p, si)] - p[si]
    angles = np.degrees(np.arctan2(delta[:, 1], delta[:, 0]))
    # The direction of the bonds, up to the threefold symmetry.
    turned.append(np.degrees(np.angle(np.mean(np.exp(3j * np.radians(angles))))) / 3 % 120)
    where.append(p[si])
    ctx.state(draws)
    ctx.step()
  turned, where = np.array(turned), np.array(where)
  counts = np.bincount((turned // 20).astype(int), minlength=6)
  ctx.check(counts.min() > 0.2 * counts.mean(), 'varied:orientation', f'{counts}')
  # The silicon is the atom nearest to the origin, anywhere in its cell.
  side = (where / simlib.BOND // 0.25).astype(int)
  cells = {tuple(s) for s in side}
  ctx.check(len(cells) >= 16 and {(a, b) for a in (0, -1) for b in (0, -1)} <= cells,
            'varied:offset', f'{sorted(cells)}')
  ctx.trace(len(turned))


def unready(ctx):
  """Nothing can be asked of a sheet or simulator that was not reset."""
  import datetime as dt
  from mc import rng, simlib
  from putting_dune import geometry, graphene, simulator

  def material():
    return graphene.PristineSingleDopedGraphene(
        rate_function=simlib.rate_functions()['simple'], grid_columns=8)

  corner = geometry.Point(-5.0, -5.0), geometry.Point(5.0, 5.0)
  uses = {
      'look': lambda m: m.get_atoms_in_bounds(*corner),
      'silicon': lambda m: m.get_silicon_position(),
      'expose': lambda m: m.apply_control(
          rng.ScriptedRng(waits=[1.0]), util.control(0.0, 0.0, 1.0)),
  }
  image = dt.timedelta(seconds=2)
  steps = {
      name: lambda m, controls=controls: simulator.PuttingDuneSimulator(
          m, image_duration=image).step_and_image(rng.ScriptedRng(waits=[9.0]), controls)
      for name, controls in (('step', [util.control(0.5, 0.5, 1.0)]), ('wait', []))
  }
  for name, use in {**uses, **steps}.items():
    for ready in (False, True):
      m = material()
      if ready:
        m.reset(rng.ScriptedRng(uniforms=[0.3] * 3))
      try:
        use(m)
        refused = False
      except RuntimeError:
        refused = True
      # A simulator is not ready because its material is.
      want = name in steps or not ready
      ctx.check(refused == want, 'unready:' + name, f'ready={ready}')
      ctx.step()
      ctx.state('unready', name, ready)
  ctx.trace()


def make(case, rate_function=None):
  from mc import rng, simlib
  from putting_dune import graphene

  material = graphene.PristineSingleDopedGraphene(
      rate_function=rate_function or simlib.rate_functions()[case['rates']],
      grid_columns=case['columns'],
  )
  material.reset(rng.ScriptedRng(uniforms=case['uniforms']))
  return material


def run_case(ctx, case):
  import numpy as np
  from mc import rng, simlib

  if case['kind'] == 'sheet':
    case = dict(case, rates='simple')
    m = make(case)
    check_sheet(ctx, m.grid, case['columns'])
    from putting_dune import graphene
    g = graphene.canonical_pristine_graphene_with_centered_silicon(case['columns'])
    ctx.check(np.abs(g.atom_positions[simlib.si_index(g)[0]]).max() < 1e-9,
              'canonical:centre')
    check_sheet(ctx, g, case['columns'] - 3)
    ctx.state('sheet', case['columns'], case['uniforms'])
    ctx.step()
    ctx.trace()
    return

  if case['kind'] == 'varied':
    varied(ctx, case)
    return

  if case['kind'] == 'unready':
    unready(ctx)
    return

  if case['kind'] == 'reset':
    # A reset forgets everything about the previous episode.
    for first in util.sequences((0.1, 0.5, 0.9), 2):
      m = make(dict(case, rates='simple'))
      for u in first:
        move(m, [1e-4], [u])
      old = util.snap(m.grid)
      kept = m.grid
      m.reset(rng.ScriptedRng(uniforms=[0.7, 0.1, 0.9]))
      fresh = make(dict(case, rates='simple', uniforms=[0.7, 0.1, 0.9]))
      ctx.check(util.same(util.snap(m.grid), util.snap(fresh.grid), 1e-9),
                'reset:depends_on_history', f'{first}')
      ctx.check(util.same(util.snap(kept), old), 'reset:old_grid_changed')
      check_sheet(ctx, m.grid, case['columns'])
      ctx.state('reset', first)
      ctx.step(len(first) + 1)
      ctx.trace()
    return

  quantiles = (0.17, 0.5, 0.83)
  actions = [()] + [(q,) for q in quantiles] + [
      (0.17, 0.17), (0.5, 0.83), (0.83, 0.17, 0.5)
  ]
  from mc import core

  def history(chooser):
    m = make(case)
    base = np.array(m.grid.atom_positions)
    kept = [(m.grid, util.snap(m.grid))]
    (si,) = simlib.si_index(m.grid)
    ctx.state(case['rates'], case['uniforms'], case['columns'], si)
    for step in range(case['depth']):
      picks = actions[
          chooser.choose('exposure', len(actions)) if step else case['first']
      ]
      rec = move(m, [1e-4] * len(picks), picks, offset=step)
      moves = [e for e in rec if e[0] == 'transition']
      ctx.check(len(moves) == len(picks), 'walk:number_of_transitions',
                f'{len(moves)} {picks}')
      for e in moves:
        pos, num = e[2]
        ctx.check(np.array_equal(pos, base), 'walk:lattice_changed')
        new = [int(i) for i in np.nonzero(num == 14)[0]]
        ctx.check(len(new) == 1 and ((num == 6) | (num == 14)).all(),
                  'walk:one_silicon', f'{new}')
        ctx.check(new[0] in simlib.neighbours(base, si), 'walk:not_a_neighbour',
                  f'{si} -> {new[0]}, bonded: {simlib.neighbours(base, si)}')
        si = new[0]
        ctx.state(case['rates'], case['uniforms'], case['columns'], si)
        ctx.step()
      ctx.check(simlib.si_index(m.grid) == [si], 'walk:grid', f'{si}')
      ctx.check(np.allclose(np.ravel(m.get_silicon_position()), base[si], atol=1e-9),
                'walk:silicon_position')
      kept.append((m.grid, util.snap(m.grid)))
    for grid, snapshot in kept:
      ctx.check(util.same(util.snap(grid), snapshot), 'walk:old_grid_changed')
    ctx.trace()

  for taken in core.explore(history):
    ctx.outcome('moves=%d' % sum(len(actions[c]) for c in [case['first'], *taken]))
  ctx.sample(case)


def move(material, waits, picks, offset=0):
  """One exposure near the silicon, with one transition for each pick."""
  import numpy as np
  from mc import rng, simlib

  rec = simlib.Recorder()
  p = np.ravel(material.get_silicon_position())
  angle = 0.4 + 1.3 * offset
  material.apply_control(
      rng.ScriptedRng(waits=waits, quantiles=list(picks)),
      util.control(p[0] + 0.5 * np.cos(angle), p[1] + 0.5 * np.sin(angle), 900.0),
      [rec.observer],
  )
  return rec.take()
