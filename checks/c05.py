"""C05: simulated time, discounts and rewards."""

from mc import util

PROPERTY = 'C05'
LEVEL = 'model_checking'
RULE = (
    'simulator: every sequence of up to three exposures from the dwell alphabet'
    ' in one step, for every image duration, with and without a run that forces'
    ' a second image, repeated for several steps; environment: every history of'
    ' steps with each dwell the adapter can request, reaching the goal at every'
    ' possible step. The reference adds up dwell times and images. A state is'
    ' (image duration, dwells, number of images).'
)
ASSUMPTIONS = ['times are compared to a microsecond, powers to 1e-9']

DWELLS = (0.0, 0.3, 1.5, 20.0)
IMAGES = (0.0, 2.0, 3.75)
GAMMA = 0.9967


def cases(tier):
  deep = tier != 'quick'
  for image in IMAGES:
    for n in range(4 if not deep else 5):
      for first in DWELLS if n > 1 else (None,):
        yield {'kind': 'simulator', 'image': image, 'n': n, 'first': first}
  for image in IMAGES:
    for fixed in (True, False):
      for first in range(3):
        yield {'kind': 'environment', 'image': image, 'fixed': fixed,
               'first': first, 'depth': 4 if deep else 3}


def run_case(ctx, case):
  (simulate if case['kind'] == 'simulator' else environment)(ctx, case)


def simulate(ctx, case):
  import datetime as dt
  from checks import c04
  from mc import rng, simlib
  from putting_dune import graphene, simulator

  mover = c04.Mover()
  sim = simulator.PuttingDuneSimulator(
      graphene.PristineSingleDopedGraphene(rate_function=mover, grid_columns=40),
      image_duration=dt.timedelta(seconds=case['image']))
  for dwells in util.sequences(DWELLS, case['n'], case['n']):
    if case['first'] is not None and dwells[0] != case['first']:
      continue
    for bonds in (0, 8) if any(dwells) else (0,):
      for pixels in (False, True) if len(set(dwells)) == 1 else (False,):
        obs = sim.reset(rng.ScriptedRng(uniforms=[0.5] * 4), pixels)
        ctx.check(obs.elapsed_time.total_seconds() == case['image'],
                  'reset:elapsed', f'{case} {obs.elapsed_time}')
        ctx.check(tuple(obs.controls) == (), 'reset:controls', f'{obs.controls}')
        for repeat in range(2):
          rec = simlib.Recorder(keep_grids=False)
          sim.add_observer(rec.observer)
          controls = [
              util.control(0.4 + 0.02 * i, 0.5, d, voltage_kv=55.0 + i,
                           current_na=0.2 * (i + 1))
              for i, d in enumerate(dwells)
          ]
          before = util.snap(controls)
          obs = sim.step_and_image(
              rng.ScriptedRng(waits=[1e-3] * (bonds if repeat == 0 else 0),
                              quantiles=[0.5] * 30), controls, pixels)
          sim.remove_observer(rec.observer)
          events = rec.take()
          recentred = sum(1 for e in events if e[0] == 'fov')
          images = [e for e in events if e[0] == 'image']
          ctx.check(
              util.same([(e[2].total_seconds(), e[3], e[4]) for e in events
                         if e[0] == 'control'],
                        [(float(d), 55.0 + i, 0.2 * (i + 1))
                         for i, d in enumerate(dwells)]),
              'beam', lambda: f'{case} {dwells} {events}')
          ctx.check(len(images) == 1 + recentred, 'number_of_images',
                    f'{case} {dwells} {len(images)} {recentred}')
          want = sum(dwells) + len(images) * case['image']
          ctx.check(abs(obs.elapsed_time.total_seconds() - want) < 2e-6,
                    'elapsed', f'{case} {dwells} {obs.elapsed_time} want {want}')
          ctx.check(
              util.same(util.snap(list(obs.controls)), before) and
              util.same(util.snap(controls), before),
              'controls', f'{case} {dwells}')
          # The caller may reuse its list.
          controls.clear()
          ctx.check(util.same(util.snap(list(obs.controls)), before),
                    'controls:shared', f'{case} {dwells}')
          ctx.check((obs.image is not None) == pixels, 'image', f'{case}')
          ctx.state(case['image'], dwells, len(images), repeat)
          ctx.step()
          ctx.outcome('images=%d' % len(images))
        ctx.trace()


def environment(ctx, case):
  import datetime as dt
  import numpy as np
  from checks import c04
  from mc import core, simlib
  from putting_dune import action_adapters, feature_constructors, goals
  from putting_dune import putting_dune_environment

  lo, hi = (1.5, 1.5) if case['fixed'] else (1.0, 10.0)

  def history(chooser):
    mover = c04.Mover()
    material = simlib.scripted_material(mover)
    goal = goals.SingleSiliconGoalReaching()
    env = putting_dune_environment.PuttingDuneEnvironment(
        material,
        action_adapters.RelativeToSiliconActionAdapter(
            dwell_time_range=(dt.timedelta(seconds=lo), dt.timedelta(seconds=hi))),
        feature_constructors.SingleSiliconPristineGrapheneFeatureConstuctor(),
        goal,
        image_duration=dt.timedelta(seconds=case['image']))
    env.seed(5)
    rec = simlib.Recorder(keep_grids=False)
    env.sim.add_observer(rec.observer)
    ts = env.reset()
    ctx.check(ts.first() and ts.reward == 0.0, 'reset:reward', f'{ts}')
    ctx.check(abs(ts.discount - GAMMA ** case['image']) < 1e-9,
              'reset:discount', f'{case} {ts.discount}')
    goal.goal_position_material_frame = np.array([900.0, 0.0])
    for k in range(case['depth']):
      rec.take()
      c = chooser.choose('step', 3) if k else case['first']
      # 0: stay; 1: run far (second image); 2: reach the goal.
      d = chooser.choose('dwell', 3) / 2 if not case['fixed'] else 0.0
      bonds = (0, 9, 1)[c]
      mover.direction = 0.3 + k
      if c == 2:
        si = env.sim.material.get_silicon_position().ravel()
        p = env.sim.material.grid.atom_positions
        aim = np.array([np.cos(mover.direction), np.sin(mover.direction)])
        nb = simlib.neighbours(p, simlib.si_index(env.sim.material.grid)[0])
        goal.goal_position_material_frame = p[
            max(nb, key=lambda j: float((p[j] - si) @ aim))] + [0.1, -0.2]
      material.waits = [1e-4] * bonds
      action = np.array([0.1, -0.1] + ([] if case['fixed'] else [d]), np.float32)
      ts = env.step(action)
      images = sum(1 for e in rec.take() if e[0] == 'image')
      want = lo + d * (hi - lo) + images * case['image']
      got = env.last_microscope_observation.elapsed_time.total_seconds()
      where = f'{case} {chooser.taken} {ts.step_type}'
      ctx.check(abs(got - want) < 2e-6, 'step:elapsed', f'{where} {got} {want}')
      if c == 2:
        ctx.check(ts.last() and ts.discount == 0.0, 'goal:not_terminal', where)
        ctx.check(abs(ts.reward - GAMMA**want) < 1e-9, 'goal:reward',
                  f'{where} {ts.reward} {GAMMA ** want}')
        ctx.outcome('goal')
        ctx.state(case['image'], d, c, images)
        break
      ctx.check(ts.mid() and ts.reward == 0.0, 'step:reward', f'{where} {ts.reward}')
      ctx.check(abs(ts.discount - GAMMA**want) < 1e-9, 'step:discount',
                f'{where} {ts.discount} {GAMMA ** want}')
      ctx.state(case['image'], d, c, images)
      ctx.outcome('images=%d' % images)
      ctx.step()
    ctx.trace()

  for _ in core.explore(history):
    pass
