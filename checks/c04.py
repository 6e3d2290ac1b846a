"""C04: the field of view follows the silicon."""

from mc import util

PROPERTY = 'C04'
LEVEL = 'model_checking'
RULE = (
    'for every field-of-view size and sheet placement: every sequence, up to the'
    ' depth, of straight or staggered runs of the silicon (1 to 12 bonds per'
    ' exposure, six directions, or none), with resets in between; after each'
    ' step the FOV is compared with the reference tracker. A state is'
    ' (configuration, silicon site, FOV).'
)
ASSUMPTIONS = [
    'the comparison with the border of the central half ignores a 1e-6 band',
    'the sheet is larger than the excursion (the silicon stays on it)',
]


def cases(tier):
  deep = tier != 'quick'
  for side in (0.0, 0.35, 0.999):
    for placement in ((0.5, 0.5, 0.0), (0.05, 0.9, 0.29)):
      for first in range(7):
        yield {'kind': 'runs', 'side': side, 'placement': list(placement),
               'first': first, 'depth': 4 if deep else 3}
  for side in (0.0, 0.5):
    for first in range(3):
      yield {'kind': 'steps', 'side': side, 'first': first,
             'placement': [0.3, 0.4, 0.61], 'depth': 8 if deep else 6}
  yield {'kind': 'resets', 'n': 40 if deep else 12}


# (number of bonds, direction) per exposure; two successive bonds move by
# sqrt(3) * 1.42 in one of six directions.
RUNS = ((0, 0), (1, 0), (3, 1), (4, 4), (6, 2), (12, 5), (9, 3))


class Mover:
  """A rate function whose only possible successor lies along a direction."""

  def __init__(self):
    self.direction = 0.0

  def __call__(self, grid, beam_position):
    import numpy as np
    from mc import simlib
    from putting_dune import graphene
    from putting_dune import microscope_utils as mu

    (si,) = simlib.si_index(grid)
    p = grid.atom_positions
    nb = simlib.neighbours(p, si)
    aim = np.array([np.cos(self.direction), np.sin(self.direction)])
    best = max(nb, key=lambda j: float((p[j] - p[si]) @ aim))
    out = []
    for j in nb:
      numbers = np.full_like(grid.atomic_numbers, 6)
      numbers[j] = 14
      out.append(graphene.SuccessorState(
          mu.AtomicGrid(p, numbers), np.float32(1.0 if j == best else 0.0)))
    return graphene.Rates(out)


def build(side, placement, columns=50):
  import numpy as np
  from mc import rng, simlib
  from putting_dune import graphene, simulator

  mover = Mover()
  sim = simulator.PuttingDuneSimulator(
      graphene.PristineSingleDopedGraphene(
          rate_function=mover, grid_columns=columns))
  rec = simlib.Recorder()
  sim.add_observer(rec.observer)
  del np
  obs = sim.reset(rng.ScriptedRng(uniforms=list(placement) + [side]))
  return sim, mover, rec, obs


def verify(ctx, obs, sim_si, previous_box, side, where):
  """The FOV after an observation; returns its box."""
  import numpy as np
  from mc import simlib

  b = simlib.box(obs.fov)
  w, h = b[2] - b[0], b[3] - b[1]
  ctx.check(abs(w - h) < 1e-9, 'fov:not_square', f'{where} {b}')
  ctx.check(15 - 1e-9 <= w <= 30 + 1e-9, 'fov:side', f'{where} {w}')
  if side is not None:
    ctx.check(abs(w - side) < 1e-9, 'fov:side_changed', f'{where} {w} {side}')
  rel = (sim_si - b[:2]) / np.array([w, h])
  ctx.check((rel > 0.25 - 1e-6).all() and (rel < 0.75 + 1e-6).all(),
            'fov:silicon_not_central', f'{where} {rel}')
  # The observation shows the silicon there.
  seen = obs.grid.atom_positions[obs.grid.atomic_numbers == 14]
  ctx.check(seen.shape == (1, 2) and np.abs(seen[0] - rel).max() < 1e-6,
            'observation:silicon', f'{where} {seen} {rel}')
  if previous_box is not None:
    old = (sim_si - previous_box[:2]) / np.array([w, h])
    inside = ((old > 0.25 + 1e-6) & (old < 0.75 - 1e-6)).all()
    outside = ((old < 0.25 - 1e-6) | (old > 0.75 + 1e-6)).any()
    if inside:
      ctx.check(np.abs(b - previous_box).max() < 1e-12, 'fov:moved_needlessly',
                f'{where} {old}')
      ctx.outcome('stays')
    if outside:
      ctx.check(np.abs(rel - 0.5).max() < 1e-6, 'fov:not_recentred',
                f'{where} {old} -> {rel}')
      ctx.outcome('recentred')
  else:
    ctx.check(np.abs(rel - 0.5).max() < 1e-6, 'fov:not_centred_on_reset',
              f'{where} {rel}')
  return b


def expose(sim, mover, bonds, direction, return_image=False):
  import numpy as np
  from mc import rng

  mover.direction = direction * np.pi / 3 + 0.2
  return sim.step_and_image(
      rng.ScriptedRng(waits=[1e-3] * bonds, quantiles=[0.5] * bonds),
      [util.control(0.5, 0.5, 60.0)], return_image)


def truth(sim):
  import numpy as np

  return np.array(sim.material.get_silicon_position()).reshape(2)


def run_case(ctx, case):
  import numpy as np
  from mc import core, rng

  if case['kind'] == 'resets':
    sim, mover, rec, obs = build(0.3, (0.5, 0.5, 0.5), 30)
    sides = set()
    for k in range(case['n']):
      side = (k * 0.381) % 1
      obs = sim.reset(rng.ScriptedRng(
          uniforms=[(k * 0.7) % 1, (k * 0.3) % 1, (k * 0.11) % 1, side]))
      b = verify(ctx, obs, truth(sim), None, None, f'reset {k}')
      width = b[2] - b[0]
      sides.add(round(width, 6))
      for d in range(2):
        obs = expose(sim, mover, 4 + d, (k + 3 * d) % 6)
        b = verify(ctx, obs, truth(sim), b, width, f'reset {k} step')
        ctx.step()
      ctx.state('resets', k)
      ctx.trace()
    ctx.check(len(sides) > case['n'] // 2, 'fov:same_side_every_episode', f'{sides}')
    return

  if case['kind'] == 'steps':
    def history(chooser):
      sim, mover, rec, obs = build(case['side'], case['placement'], 30)
      b = verify(ctx, obs, truth(sim), None, None, 'start')
      side = b[2] - b[0]
      for k in range(case['depth']):
        c = chooser.choose('turn', 3) if k else case['first']
        obs = expose(sim, mover, 1, 2 * c)
        b = verify(ctx, obs, truth(sim), b, side, f'{case} {chooser.taken}')
        ctx.step()
        ctx.state(case['side'], np.round(truth(sim), 3).tolist(),
                  np.round(b, 3).tolist())
      ctx.trace()

    for _ in core.explore(history, deviations=3 if not ctx.deep else 4):
      pass
    return

  def history(chooser):
    sim, mover, rec, obs = build(case['side'], case['placement'])
    b = verify(ctx, obs, truth(sim), None, None, 'start')
    side = b[2] - b[0]

    for k in range(case['depth']):
      c = chooser.choose('run', len(RUNS)) if k else case['first']
      bonds, direction = RUNS[c]
      obs = expose(sim, mover, bonds, direction)
      b = verify(ctx, obs, truth(sim), b, side, f'{case} {chooser.taken}')
      ctx.step()
      ctx.state(case['side'], case['placement'], np.round(truth(sim), 3).tolist(),
                np.round(b, 3).tolist())
    ctx.trace()



  for taken in core.explore(history):
    del taken
  ctx.sample(case)
