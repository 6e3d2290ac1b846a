"""C01: the episode protocol of an environment with a step limit."""

from mc import util

PROPERTY = 'C01'
LEVEL = 'model_checking'
RULE = (
    'every history of reset/step calls up to the depth, with every verdict the'
    ' goal can return on each step, for every step limit, observation kind and'
    ' action adapter; plus long runs at the default limit. A reference automaton'
    ' (needs_reset, steps) predicts every time step of the real environment.'
    ' A state is (configuration, needs_reset, steps, last verdict).'
)
ASSUMPTIONS = [
    'the goal verdict is scripted; rewards are drawn from three values',
    'beyond the depth the automaton repeats (steps since the last FIRST < limit)',
]


def cases(tier):
  depth = 5 if tier == 'quick' else 6
  for limit in (1, 2, 3, None):
    for kind in ('state',):
      for h in histories(limit, depth):
        yield {'limit': limit, 'kind': kind, 'history': h}
  for kind in ('delta', 'material', 'direct_pixels'):
    for limit in (2, None):
      for h in histories(limit, 3 if tier == 'quick' else 4):
        yield {'limit': limit, 'kind': kind, 'history': h}
  for limit in (None, 1, 2, 7):
    yield {'limit': limit, 'kind': 'bare', 'history': 'Rccctcxc'}
  yield {'limit': 'default', 'kind': 'default', 'history': 'long'}
  yield {'limit': 'default', 'kind': 'default', 'history': 'long_interrupted'}


def histories(limit, depth):
  """Maximal histories: 'S' is a step that only resets (its verdict is unused)."""
  def rec(prefix, needs, steps):
    if len(prefix) == depth:
      yield ''.join(prefix)
      return
    yield from rec(prefix + ['R'], False, 0)
    if needs:
      yield from rec(prefix + ['S'], False, 0)
    else:
      for v in 'ctx':
        n = steps + 1
        over = v != 'c' or (limit is not None and n >= limit)
        yield from rec(prefix + [v], over, n)
  yield from rec([], True, 0)


def build(case, outcomes):
  import datetime as dt
  import numpy as np
  from putting_dune import action_adapters, feature_constructors, goals
  from putting_dune import graphene, putting_dune_environment, run_helpers

  goal = goals.SingleSiliconGoalReaching()
  script = list(outcomes)
  asked = []

  def verdict(observation):
    asked.append(observation)
    v, reward = script.pop(0)
    return goals.GoalReturn(
        reward=reward, is_terminal=v == 't', is_truncated=v == 'x'
    )

  goal.calculate_reward_and_terminal = verdict
  kind = case['kind']
  adapter = {
      'state': lambda: action_adapters.RelativeToSiliconActionAdapter(
          dwell_time_range=(dt.timedelta(seconds=1), dt.timedelta(seconds=5))
      ),
      'delta': lambda: action_adapters.DeltaPositionActionAdapter(
          np.random.default_rng(3)
      ),
      'material': action_adapters.RelativeToSiliconMaterialFrameActionAdapter,
      'direct_pixels': action_adapters.DirectActionAdapter,
  }[kind]()
  features = {
      'state': feature_constructors.SingleSiliconPristineGrapheneFeatureConstuctor,
      'delta': feature_constructors.SingleSiliconPristineGrapheneFeatureConstuctor,
      'material': feature_constructors.SingleSiliconMaterialFrameFeatureConstructor,
      'direct_pixels': feature_constructors.ImageFeatureConstructor,
  }[kind]()
  env = putting_dune_environment.PuttingDuneEnvironment(
      material=graphene.PristineSingleDopedGraphene(grid_columns=30),
      action_adapter=adapter,
      feature_constructor=features,
      goal=goal,
  )
  env = run_helpers.StepLimitWrapper(env, step_limit=case['limit'])
  env.seed(7)
  return env, asked


class Counter:

  def __init__(self):
    from putting_dune import microscope_utils as mu

    outer = self
    self.resets = 0
    self.controls = 0

    class Observer(mu.SimulatorObserver):

      def observe_reset(self, grid, fov):
        outer.resets += 1

      def observe_apply_control(self, control):
        outer.controls += 1

    self.observer = Observer()


def check_spec(ctx, env, ts):
  import numpy as np

  spec = env.observation_spec()
  if isinstance(spec, dict):
    ctx.check(set(spec) == set(ts.observation), 'spec:keys', repr(spec))
    for k, s in spec.items():
      s.validate(ts.observation[k])
  else:
    spec.validate(ts.observation)
    ctx.check(np.isfinite(ts.observation).all(), 'spec:finite', repr(ts))


def run_case(ctx, case):
  if case['kind'] == 'default':
    return run_default(ctx, case)
  if case['kind'] == 'bare':
    return run_wrapper(ctx, case)
  import numpy as np

  limit = case['limit']
  rewards = (0.0, 0.25, -1.0)
  script, n = [], 0
  for op in case['history']:
    if op in 'ctx':
      script.append((op, rewards[n % 3]))
      n += 1
  env, asked = build(case, script)
  counter = Counter()
  env.sim.add_observer(counter.observer)
  spec = env.action_spec()
  action = (np.asarray(spec.minimum) * 0.25 + np.asarray(spec.maximum) * 0.75
            ) * np.ones(spec.shape)
  action = spec.validate(action.astype(spec.dtype))
  needs, steps, episodes, n = True, 0, 0, 0
  ctx.state(case['kind'], limit, needs, steps, None)
  for op in case['history']:
    ctx.step()
    controls, questions = counter.controls, len(asked)
    if op == 'R':
      ts = env.reset()
    else:
      ts = env.step(action)
    check_spec(ctx, env, ts)
    if op == 'R' or needs:
      needs, steps = False, 0
      episodes += 1
      ctx.check(ts.first(), 'expected_FIRST', f'{op} {ts}')
      ctx.check(counter.resets == episodes, 'no_new_episode', f'{op}')
      ctx.check(
          counter.controls == controls and len(asked) == questions,
          'reset_applied_the_action', f'{op}',
      )
    else:
      steps += 1
      v, reward = script[n]
      n += 1
      cut = limit is not None and steps >= limit
      over = v != 'c' or cut
      needs = over
      ctx.check(counter.resets == episodes, 'unexpected_new_episode', f'{op}')
      ctx.check(len(asked) == questions + 1, 'goal_asked_once', f'{op}')
      ctx.check(counter.controls == controls + 1, 'action_not_applied', f'{op}')
      ctx.check(
          ts.last() if over else ts.mid(), 'step_type',
          f'{case}: step {steps} is {ts.step_type}, verdict {v}',
      )
      ctx.check(abs(ts.reward - reward) < 1e-12, 'reward', f'{ts} {reward}')
      if v == 't':
        ctx.check(ts.discount == 0.0, 'discount:terminal', f'{ts}')
      else:
        ctx.check(0.0 < ts.discount < 1.0, 'discount:not_terminal', f'{ts}')
    ctx.state(case['kind'], limit, needs, steps if limit else min(steps, 1), op)
  ctx.trace()
  ctx.outcome('over' if needs else 'running')
  ctx.sample({'limit': limit, 'history': case['history']})


def run_wrapper(ctx, case):
  """The step limit around environments that restart, end or never end."""
  import dm_env
  from putting_dune import run_helpers

  class Scripted(dm_env.Environment):

    def __init__(self, script):
      self.script = list(script)
      self.i = 0
      self.needs = True
      self.acted = 0

    def reset(self):
      self.needs = False
      return dm_env.TimeStep(dm_env.StepType.FIRST, 0.0, 0.5, 'obs')

    def step(self, action):
      if self.needs:
        return self.reset()
      self.acted += 1
      v = self.script[self.i % len(self.script)]
      self.i += 1
      self.needs = v != 'c'
      if v == 't':
        return dm_env.termination(1.0, action)
      if v == 'x':
        return dm_env.truncation(0.5, action, 0.25)
      return dm_env.transition(0.125, action, 0.75)

    def observation_spec(self):
      return 'o'

    def action_spec(self):
      return 'a'

  limit = case['limit']
  for script in util.sequences('ctx', 4, 1):
    for ops in util.sequences('RS', 7 if ctx.deep else 6, 6):
      inner = Scripted(script)
      env = run_helpers.StepLimitWrapper(inner, step_limit=limit)
      needs, steps, i = True, 0, 0
      for k, op in enumerate(ops):
        ctx.step()
        ts = env.reset() if op == 'R' else env.step(k)
        if op == 'R' or needs:
          needs, steps = False, 0
          ctx.check(ts.first(), 'wrapper:FIRST', f'{limit} {script} {ops} {k} {ts}')
        else:
          v = script[i % len(script)]
          i += 1
          steps += 1
          over = v != 'c' or (limit is not None and steps >= limit)
          needs = over
          ctx.check(
              ts.last() if over else ts.mid(), 'wrapper:step_type',
              f'{limit} {script} {ops} {k} {ts}',
          )
          want = {'t': (1.0, 0.0), 'x': (0.5, 0.25), 'c': (0.125, 0.75)}[v]
          ctx.check(
              (ts.reward, ts.discount, ts.observation) == want + (k,),
              'wrapper:values', f'{limit} {script} {ops} {k} {ts}',
          )
        ctx.check(inner.acted == i, 'wrapper:acted', f'{limit} {script} {ops} {k}')
        ctx.state('wrapper', limit, script, needs, steps)
      ctx.trace()
  ctx.outcome('wrapper')


def run_default(ctx, case):
  """An unlucky agent at the default limit of the environment factory."""
  import numpy as np
  from putting_dune import goals, run_helpers
  from putting_dune.experiments import registry

  experiment = registry.create_train_experiment('relative_prior_rates')
  env = run_helpers.create_putting_dune_env(
      3,
      get_adapters_and_goal=experiment.get_adapters_and_goal,
      get_simulator_config=experiment.get_simulator_config,
  )
  env.goal.calculate_reward_and_terminal = lambda o: goals.GoalReturn(
      0.0, False, False
  )
  action = np.zeros(2, np.float32)  # On the silicon: it hardly ever moves.
  interrupt = 250 if case['history'] == 'long_interrupted' else None
  ts = env.reset()
  ctx.check(ts.first(), 'long:first')
  if interrupt:
    for _ in range(interrupt):
      ts = env.step(action)
      ctx.check(ts.mid(), 'long:mid_before_interrupt')
      ctx.step()
    ctx.check(env.reset().first(), 'long:first_after_interrupt')
  for _ in range(2):
    for i in range(1, 601):
      ts = env.step(action)
      ctx.step()
      ctx.check(
          ts.last() == (i == 600) and not ts.first(), 'long:limit',
          f'step {i}: {ts.step_type}',
      )
      ctx.state('long', i)
    ctx.check(0 < ts.discount < 1, 'long:discount', f'{ts}')
    ctx.check(env.step(action).first(), 'long:restart')
  ctx.trace()
  ctx.outcome('long')
