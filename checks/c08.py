"""C08: seeded environments replay exactly and do not disturb each other."""

from mc import util

PROPERTY = 'C08'
LEVEL = 'model_checking'
RULE = (
    'for every pair of environments (state, wide, delta, pixels): every'
    ' interleaving of their operations (seed, reset, steps, reseed), with the'
    ' global generators disturbed in between, is compared with each environment'
    ' running alone; plus every history of reseeding up to the depth. A state is'
    ' (pair, operations done by each).'
)
ASSUMPTIONS = ['environments are driven from one thread']

SCRIPTS = {
    'steps': ('seed', 'reset', 0, 1, 2),
    'auto': ('seed', 0, 1, 'reset', 2),
    'reseed': ('seed', 'reset', 1, 'seed', 'reset'),
}
KINDS = ('state', 'prior', 'delta', 'pixels', 'material')


def cases(tier):
  for a in KINDS:
    for b in KINDS:
      near = (KINDS.index(b) - KINDS.index(a)) % len(KINDS)
      if tier == 'quick' and (near > 1 or ('pixels' in (a, b) and near)):
        continue
      for sa in ('steps', 'auto'):
        for sb in ('steps', 'reseed'):
          for split in range(4):
            if tier == 'quick' and (sa == 'auto') != (sb == 'reseed'):
              continue
            if 'pixels' in (a, b) and tier == 'quick' and (split % 2 or sa == 'auto'):
              continue
            yield {'kind': 'pair', 'a': a, 'b': b, 'sa': sa, 'sb': sb,
                   'split': split}
  for a in KINDS:
    for first in range(4):
      yield {'kind': 'reseed', 'a': a, 'first': first,
             'depth': (5 if tier != 'quick' else 4) - 2 * (a == 'pixels')}


def make(kind, features=None, goal=None):
  import datetime as dt
  import numpy as np
  from mc import simlib
  from putting_dune import action_adapters, feature_constructors, goals
  from putting_dune import graphene, run_helpers
  from putting_dune.experiments import experiments

  rates = simlib.rate_functions()
  # Here the silicon leaves the middle of the view, to the right or left.
  drift = {'right': (0.7, 0, 0), 'left': (0, 0.7, 0)}
  if kind in drift:
    rate_function = simlib.table_rates(lambda step, si: drift[kind])
  else:
    rate_function = rates['prior' if kind == 'prior' else 'simple']
  if kind == 'delta':
    adapter = action_adapters.DeltaPositionActionAdapter(np.random.default_rng())
  elif kind == 'material':
    adapter = action_adapters.RelativeToSiliconMaterialFrameActionAdapter()
  elif kind == 'pixels':
    adapter = action_adapters.DirectActionAdapter()
  else:
    adapter = action_adapters.RelativeToSiliconActionAdapter(
        dwell_time_range=(dt.timedelta(seconds=2), dt.timedelta(seconds=9)))
  features = features or {
      'pixels': feature_constructors.ImageFeatureConstructor,
      'material': feature_constructors.SingleSiliconMaterialFrameFeatureConstructor,
  }.get(kind, feature_constructors.SingleSiliconPristineGrapheneFeatureConstuctor)()
  return run_helpers.create_putting_dune_env(
      11,
      get_adapters_and_goal=lambda: experiments.AdaptersAndGoal(
          adapter, features, goal or goals.SingleSiliconGoalReaching()),
      get_simulator_config=lambda: experiments.SimulatorConfig(
          graphene.PristineSingleDopedGraphene(
              rate_function=rate_function,
              grid_columns=24),
          dt.timedelta(seconds=2)),
      step_limit=2)


def act(env, op, seed):
  import numpy as np

  if op == 'seed':
    return env.seed(seed)
  if op == 'reset':
    return env.reset()
  spec = env.action_spec()
  u = np.array([0.93, 0.71, 0.8])[:spec.shape[0]]
  u = np.abs(u - 0.15 * op)
  action = (spec.minimum + u * (spec.maximum - spec.minimum)).astype(spec.dtype)
  before = action.copy()
  ts = env.step(action)
  assert (action == before).all(), 'the action was modified'
  return ts


def result(env, ts):
  o = env.last_microscope_observation
  goal = env.goal.goal_position_material_frame
  return util.snap([ts, o, goal, env.sim.material.grid if ts is not None else None])


def disturb(k):
  import random
  import numpy as np

  random.seed(k)
  np.random.seed(k % 1000)
  np.random.rand(k % 5)


def alone(kind, script, seed):
  import gc

  env = make(kind)
  out = [result(env, act(env, op, seed)) for op in script]
  gc.collect()
  return out


_CACHE = {}


def reference(kind, script, seed):
  key = (kind, script, seed)
  if key not in _CACHE:
    _CACHE[key] = alone(kind, SCRIPTS[script], seed)
  return _CACHE[key]


def run_case(ctx, case):
  import itertools

  if case['kind'] == 'reseed':
    return reseed(ctx, case)
  sa, sb = SCRIPTS[case['sa']], SCRIPTS[case['sb']]
  want = {0: reference(case['a'], case['sa'], 5), 1: reference(case['b'], case['sb'], 8)}
  n = len(sa) + len(sb)
  env0 = {0: case['a'], 1: case['b']}
  for which in itertools.combinations(range(n), len(sa)):
    # The cases split the interleavings by where the first two operations go.
    if (0 in which) + 2 * (1 in which) != case['split']:
      continue
    if not ctx.deep and 'pixels' in env0.values() and which[-1] - which[0] not in (4, 9):
      continue
    envs = {0: make(case['a']), 1: make(case['b'])}
    at = {0: 0, 1: 0}
    for k in range(n):
      i = 0 if k in which else 1
      disturb(17 * k + i)
      op = (sa, sb)[i][at[i]]
      got = result(envs[i], act(envs[i], op, (5, 8)[i]))
      ctx.check(util.same(got, want[i][at[i]]), 'interleaving',
                f'{case} {which}: operation {at[i]} ({op}) of environment {i}')
      at[i] += 1
      ctx.step()
      ctx.state(case['a'], case['b'], case['sa'], case['sb'], at[0], at[1])
    ctx.trace()
  ctx.check(not util.same(want[0][1], want[1][1]), 'seed_has_no_effect', f'{case}')


def reseed(ctx, case):
  """After seeding, what happens depends on the seed alone."""
  from mc import core

  env = make(case['a'])
  tails = {}

  def history(chooser):
    for k in range(case['depth']):
      c = chooser.choose('op', 4) if k else case['first']
      if c < 2:
        ts = act(env, ('reset', 1)[c], None)
        del ts
      else:
        seed = (3, 4)[c - 2]
        act(env, 'seed', seed)
        disturb(k)
        out = [result(env, act(env, 'reset', None)), result(env, act(env, 1, None))]
        ctx.check(util.same(out, tails.setdefault(seed, out)), 'reseed',
                  f'{case} {chooser.taken} seed {seed}')
      ctx.step()
      ctx.state(case['a'], tuple(chooser.taken))
    ctx.trace()

  for _ in core.explore(history):
    pass
  if len(tails) == 2:
    ctx.check(not util.same(tails[3], tails[4]), 'reseed:no_effect', f'{case}')
