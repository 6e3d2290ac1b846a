"""C11: features describe the observed silicon and the goal."""

from mc import util

PROPERTY = 'C11'
LEVEL = 'model_checking'
RULE = (
    'every observation out of: lattice angle, silicon place in the view, view'
    ' (square; oblong for the features in angstrom), listing order, precision,'
    ' number of silicon atoms, and goal; through every feature constructor, in'
    ' sequences sharing one constructor; against formulas. A state is'
    ' (constructor, observation, goal).'
)
ASSUMPTIONS = [
    'the three nearest neighbours are unambiguous; their order is free when they'
    ' are equally far',
    'values are compared to single precision',
]

ANGLES = (0.0, 0.37, 1.9)
SPOTS = ((0.5, 0.5), (0.34, 0.66), (0.02, 0.5), (0.99, 0.98))
VIEWS = ((-10, -10, 10, 10), (400.0, -320.0, 428.0, -292.0), (0, 0, 30, 18))


def cases(tier):
  for name in ('view', 'material', 'pixels'):
    for v in range(len(VIEWS)):
      if name == 'view' and v == 2:
        continue
      for angle in ANGLES:
        for silicon in (1, 2, 0):
          yield {'kind': name, 'view': v, 'angle': angle, 'silicon': silicon}
  yield {'kind': 'specs'}
  for name in ('view', 'material', 'pixels'):
    for adapter in ('relative', 'material', 'delta', 'direct'):
      for first in range(4):
        yield {'kind': 'environment', 'name': name, 'adapter': adapter, 'first': first,
               'depth': 3 if tier == 'quick' and name != 'pixels' else 4 if tier != 'quick' else 2}


def environment(ctx, case):
  """Every time step shows the features of the observation that it led to."""
  import numpy as np
  from checks import c04
  from mc import core, simlib

  def history(chooser):
    mover = c04.Mover()
    env, material = simlib.scripted_env(
        mover, simlib.adapters()[case['adapter']](), simlib.features()[case['name']]())
    env.seed(11)
    ts = env.reset()
    aim = np.array(env.goal.goal_position_material_frame)

    def compare():
      observed = env.last_microscope_observation
      where = lambda: f'{case} {chooser.taken} {ts}'
      want = simlib.features()[case['name']]().get_features(observed, env.goal)
      ctx.check(util.same(util.snap(ts.observation), util.snap(want), 1e-6), 'environment:features', where)
      lo, hi = np.array(simlib.box(observed.fov)).reshape(2, 2)
      z = np.asarray(observed.grid.atomic_numbers)
      at = lo + np.asarray(observed.grid.atom_positions)[z == 14] * (hi - lo)
      ctx.check(at.shape == (1, 2) and np.abs(
          at - np.asarray(env.sim.material.get_silicon_position()).reshape(1, 2)).max() < 1e-4,
                'environment:observation', where)
      delta = (ts.observation['goal_delta_angstroms'] if case['name'] == 'pixels'
               else ts.observation[8:])
      ctx.check(np.abs(aim - at[0] - delta).max() < 1e-3, 'environment:goal', where)

    compare()
    for k in range(case['depth']):
      c = chooser.choose('step', 4) if k else case['first']
      ctx.state(case['name'], case['adapter'], k, c)
      if c == 3:
        ts = env.reset()
        aim = np.array(env.goal.goal_position_material_frame)
      else:
        mover.direction = 0.4 + 1.1 * k
        material.waits = [1e-4] * (0, 1, 10)[c]
        spec = env.action_spec()
        ts = env.step(np.full(spec.shape, 0.25, np.float32))
        if ts.last():
          ctx.outcome('goal')
      compare()
      ctx.step()
      if ts.last():
        ts = env.step(np.zeros(spec.shape, np.float32))
        aim = np.array(env.goal.goal_position_material_frame)
        compare()
    ctx.trace()

  for _ in core.explore(history):
    pass


def run_case(ctx, case):
  if case['kind'] == 'environment':
    return environment(ctx, case)
  import numpy as np
  from putting_dune import feature_constructors as fc
  from putting_dune import goals, graphene

  classes = {
      'view': fc.SingleSiliconPristineGrapheneFeatureConstuctor,
      'material': fc.SingleSiliconMaterialFrameFeatureConstructor,
      'pixels': fc.ImageFeatureConstructor,
  }
  if case['kind'] == 'specs':
    for name, cls in classes.items():
      ctx.check(cls().requires_image == (name == 'pixels'), 'requires_image', name)
      spec = cls().observation_spec()
      if name == 'pixels':
        ctx.check(set(spec) == {'image', 'goal_delta_angstroms'}, 'spec', f'{spec}')
        ctx.check(spec['image'].shape == (128, 128, 1) and
                  spec['goal_delta_angstroms'].shape == (2,), 'spec', f'{spec}')
      else:
        ctx.check(spec.shape == (10,) and spec.dtype == np.float32, 'spec', f'{spec}')
      ctx.step()
      ctx.state('spec', name)

      class Other(goals.Goal):

        def reset(self, rng, initial_observation):
          pass

        def calculate_reward_and_terminal(self, observation):
          return goals.GoalReturn(0.0, False, False)

      obs = util.observation(util.grid(util.honeycomb(2) * 0.1 + 0.5,
                                       [14] + [6] * 49), util.fov(0, 0, 1, 1))
      ctx.check(isinstance(util.raises(cls().get_features, obs, Other()), ValueError),
                'other_goal_accepted', name)
    ctx.trace()
    return

  view = VIEWS[case['view']]
  lo, hi = np.array(view[:2], float), np.array(view[2:], float)
  constructor = classes[case['kind']]()
  goal = goals.SingleSiliconGoalReaching()
  for spot in SPOTS:
    centre = lo + np.array(spot) * (hi - lo)
    honey = util.honeycomb(3, angle=case['angle'], centre=centre)
    for order in (1, -1):
      for dtype in (np.float64, np.float32):
        for aim in ((0.0, 0.0), (13.5, -7.25), (-1000.0, 3.0)):
          p = honey[::order]
          n = np.full(len(p), 6)
          (si,) = [i for i in range(len(p)) if np.allclose(p[i], centre)]
          if case['silicon'] == 1:
            n[si] = 14
          elif case['silicon'] == 2:
            # The one nearest the middle of the view counts; its neighbours
            # must be on the lattice.
            far = int(np.argmax(np.abs((p - lo) / (hi - lo) - 0.5).max(1)))
            n[far] = 14
            n[si] = 14
          rel = (p - lo) / (hi - lo)
          image = None
          if case['kind'] == 'pixels':
            y, x = np.mgrid[0:48, 0:96]
            image = ((x * 0.01 + y * 0.02) * (1 if order == 1 else -0.5)).astype(dtype)
          obs = util.observation(util.grid(rel.astype(dtype), n), util.fov(*view),
                                 image=image)
          goal.goal_position_material_frame = centre + aim
          before = util.snap(obs)
          constructor.reset()
          where = f'{case} {spot} {order} {dtype.__name__} {aim}'
          if case['silicon'] == 0:
            error = util.raises(constructor.get_features, obs, goal)
            ctx.check(isinstance(error, graphene.SiliconNotFoundError),
                      'no_silicon', f'{where} {error!r}')
            ctx.step()
            continue
          got = constructor.get_features(obs, goal)
          ctx.check(util.same(before, util.snap(obs)), 'observation_modified', where)
          # The silicon is compared as it was observed, in single precision.
          tol = 4e-5 if dtype == np.float64 else 4e-4
          if abs(lo).max() > 100:
            tol *= 4
          if case['kind'] == 'pixels':
            ctx.check(got['image'].shape == (128, 128, 1) and
                      got['image'].dtype == np.float32, 'image:shape', where)
            small = got['image'][:, :, 0]
            # Sampling a linear image at the pixel centres of the smaller grid.
            yy, xx = np.mgrid[0:128, 0:128]
            want = ((np.clip((xx + 0.5) * 96 / 128 - 0.5, 0, 95)) * 0.01 +
                    (np.clip((yy + 0.5) * 48 / 128 - 0.5, 0, 47)) * 0.02) * (
                        1 if order == 1 else -0.5)
            ctx.check(np.abs(small - want)[4:-4, 4:-4].max() < 2e-3, 'image:content',
                      lambda: f'{where} {np.abs(small - want).max()}')
            delta = got['goal_delta_angstroms']
            ctx.check(delta.dtype == np.float32 and delta.shape == (2,), 'delta', where)
            ctx.check(np.abs(delta - aim).max() <= max(tol, 1e-6 * abs(aim[0])),
                      'goal_delta', f'{where} {delta}')
          else:
            ctx.check(got.shape == (10,) and got.dtype == np.float32, 'shape', where)
            at = np.array(spot) if case['kind'] == 'view' else centre
            ctx.check(np.abs(got[:2] - at).max() < tol, 'silicon', f'{where} {got[:2]}')
            d = np.linalg.norm(p - centre, axis=1)
            nb = p[np.argsort(d)[1:4]] - centre
            if case['kind'] == 'view':
              nb = nb / np.linalg.norm(nb, axis=1, keepdims=True)
            rows = got[2:8].reshape(3, 2)
            left = list(range(3))
            for row in rows:
              best = min(left, key=lambda j: np.abs(nb[j] - row).max())
              ctx.check(np.abs(nb[best] - row).max() < 25 * tol, 'neighbours',
                        lambda: f'{where} {rows} {nb}')
              left.remove(best)
            ctx.check(np.abs(got[8:] - aim).max() <= max(tol, 1e-6 * abs(aim[0])),
                      'goal_delta', f'{where} {got[8:]}')
          ctx.step()
          ctx.state(case['kind'], case['view'], case['angle'], case['silicon'],
                    spot, order, dtype.__name__, aim)
  ctx.trace()
  ctx.outcome(case['kind'])
