"""C18: the agent that drives a microscope."""

from mc import util

PROPERTY = 'C18'
LEVEL = 'model_checking'
RULE = (
    'every history of resets and steps up to the depth, where each step shows no'
    ' silicon (noticed by the features or by the goal), or any verdict of the'
    ' goal with several elapsed times, with recording stand-ins for the agent,'
    ' adapter, features and goal; and histories of real experiments on'
    ' observations with and without silicon. A state is (first, steps, last'
    ' operation).'
)
ASSUMPTIONS = [
    'after an episode has ended the agent is reset before it is stepped again',
]

ELAPSED = (0.0, 2.0, 37.25)
OPS = ('R', 'c', 't', 'x', 'n', 'g')


def cases(tier):
  depth = 6 if tier != 'quick' else 5
  for a in OPS:
    for b in OPS:
      yield {'kind': 'stubs', 'prefix': a + b, 'depth': depth}
  for name in ('relative_random', 'relative_random_long', 'greedy_on_neighbor'):
    for first in range(4):
      yield {'kind': 'real', 'experiment': name, 'first': first,
             'depth': 5 if tier != 'quick' else 4}


def run_case(ctx, case):
  (stubs if case['kind'] == 'stubs' else real)(ctx, case)


class World:
  """Stand-ins that record every call."""

  def __init__(self):
    import numpy as np
    from putting_dune import action_adapters, feature_constructors, goals
    from putting_dune import graphene
    from putting_dune.agents import agent_lib
    from putting_dune.experiments import experiments

    calls = self.calls = []
    self.verdict = None
    world = self

    class Agent(agent_lib.Agent):

      def step(self, time_step):
        calls.append(('agent', time_step))
        return ('action', len(calls))

      def set_mode(self, mode):
        pass

    class Adapter(action_adapters.ActionAdapter):
      action_spec = None

      def reset(self):
        calls.append(('adapter.reset',))

      def get_action(self, previous_observation, action):
        calls.append(('adapter', previous_observation, action))
        world.controls = [object()]
        return world.controls

    class Features(feature_constructors.FeatureConstructor):
      requires_image = False

      def observation_spec(self):
        return None

      def reset(self):
        calls.append(('features.reset',))

      def get_features(self, observation, goal):
        calls.append(('features', observation, goal))
        if world.verdict == 'n':
          raise graphene.SiliconNotFoundError()
        world.features = np.arange(3.0) + len(calls)
        return world.features

    class Goal(goals.Goal):

      def reset(self, rng, initial_observation):
        calls.append(('goal.reset', rng, initial_observation))

      def calculate_reward_and_terminal(self, observation):
        calls.append(('goal', observation))
        if world.verdict in 'ng':
          raise graphene.SiliconNotFoundError()
        world.reward = 0.25 * len(calls)
        world.result = goals.GoalReturn(
            world.reward, world.verdict == 't', world.verdict == 'x')
        return world.result

    self.agent, self.adapter, self.features_of, self.goal = (
        Agent(), Adapter(), Features(), Goal())
    given = experiments.AdaptersAndGoal(self.adapter, self.features_of, self.goal)
    self.experiment = experiments.MicroscopeExperiment(
        get_agent=lambda rng, ag: self.made.append((rng, ag)) or self.agent,
        get_adapters_and_goal=lambda: given)
    self.made = []
    self.given = given


def stubs(ctx, case):
  import datetime as dt
  import dm_env
  import numpy as np
  from mc import core
  from putting_dune import microscope_agent

  grid = util.grid([[0.5, 0.5], [0.4, 0.6]], [14, 6])

  def history(chooser):
    w = World()
    rng = np.random.default_rng(3)
    agent = microscope_agent.MicroscopeAgent(rng, w.experiment)
    ctx.check(len(w.made) == 1 and w.made[0][0] is rng and w.made[0][1] is w.given,
              'construction', f'{w.made}')
    first, ended, done = True, False, ''
    ctx.check(agent.last_goal_return is None, 'last_goal_return:initial', '')
    for k in range(case['depth']):
      if k < 2:
        op = case['prefix'][k]
        if ended and op != 'R':
          return
      elif ended:
        op = 'R'
      else:
        op = OPS[chooser.choose('op', len(OPS))]
      # Three elapsed times for the last operation, by turns for the others.
      e = ELAPSED[k % 3]
      o = util.observation(grid, util.fov(0, 0, 9, 9), (), e)
      before = util.snap(o)
      w.calls.clear()
      done += op
      where = f'{done} elapsed={e}'
      if op == 'R':
        other = np.random.default_rng(k)
        agent.reset(other, o)
        names = sorted(c[0] for c in w.calls)
        ctx.check(names == ['adapter.reset', 'features.reset', 'goal.reset'],
                  'reset:calls', f'{where}: {names}')
        (call,) = [c for c in w.calls if c[0] == 'goal.reset']
        ctx.check(call[1] is other and call[2] is o, 'reset:goal', where)
        first, ended = True, False
      else:
        w.verdict = op
        controls = agent.step(o)
        asked = [c for c in w.calls if c[0] == 'agent']
        if op in 'ng':
          ctx.check(not asked and all(c[0] in ('features', 'goal') for c in w.calls),
                    'rescan:agent_asked', where)
          ctx.check(isinstance(controls, list) and len(controls) == 1 and
                    (controls[0].position.x, controls[0].position.y) == (0, 0) and
                    controls[0].dwell_time == dt.timedelta(0), 'rescan:control',
                    lambda: f'{where}: {controls}')
          ctx.check(agent.last_goal_return is None, 'rescan:goal_return', where)
        else:
          ctx.check(len(asked) == 1, 'agent_calls', where)
          ts = asked[0][1]
          factor = 0.9967 ** e
          if op == 't':
            want = (dm_env.StepType.LAST, w.reward, 0.0)
          elif op == 'x':
            want = (dm_env.StepType.LAST, w.reward, factor)
          elif first:
            want = (dm_env.StepType.FIRST, None, None)
          else:
            want = (dm_env.StepType.MID, w.reward, factor)
          ok = ts.step_type == want[0] and all(
              (a is None) == (b is None) and (b is None or abs(a - b) < 1e-12)
              for a, b in ((ts.reward, want[1]), (ts.discount, want[2])))
          ctx.check(ok, 'time_step', f'{where}: {ts} instead of {want}')
          ctx.check(ts.observation is w.features, 'time_step:features', where)
          (f,) = [c for c in w.calls if c[0] == 'features']
          ctx.check(f[1] is o and f[2] is w.goal, 'features:arguments', where)
          verdicts = [c for c in w.calls if c[0] == 'goal']
          ctx.check(len(verdicts) == 1 and verdicts[0][1] is o, 'goal:calls', where)
          (a,) = [c for c in w.calls if c[0] == 'adapter']
          ctx.check(a[1] is o and a[2][0] == 'action', 'adapter:arguments', where)
          ctx.check(w.calls.index(asked[0]) < w.calls.index(a) and
                    a[2][1] == w.calls.index(asked[0]) + 1, 'adapter:action', where)
          ctx.check(controls is w.controls or list(controls) == w.controls,
                    'controls', where)
          ctx.check(agent.last_goal_return == w.result, 'last_goal_return', where)
          first, ended = False, op in 'tx'
      ctx.check(util.same(before, util.snap(o)), 'observation_modified', where)
      ctx.step()
      ctx.state(first, ended, done[-3:], e)
    ctx.trace()
    ctx.outcome('LAST' if 't' in done or 'x' in done else 'open')

  for _ in core.explore(history):
    pass


def real(ctx, case):
  import dm_env
  import numpy as np
  from mc import core
  from putting_dune import microscope_agent
  from putting_dune.experiments import registry

  experiment = registry.create_microscope_experiment(case['experiment'])
  shared = util.honeycomb(3, angle=0.4, centre=(5.0, 6.0))
  view = util.fov(-2.0, -1.0, 12.0, 13.0)
  relative = np.asarray(view.material_frame_to_microscope_frame(shared))
  inside = relative[((relative > 0) & (relative < 1)).all(1)]
  order = np.argsort(np.linalg.norm(inside - 0.5, axis=1))

  def observe(silicon, seconds):
    numbers = np.full(len(inside), 6)
    if silicon is not None:
      numbers[order[silicon]] = 14
    return util.observation(util.grid(inside, numbers), view, (), seconds)

  def history(chooser):
    recorded = []
    agent = microscope_agent.MicroscopeAgent(np.random.default_rng(5), experiment)
    inner = agent.agent.step
    agent.agent.step = lambda ts: recorded.append((ts, None)) or (
        recorded.__setitem__(-1, (ts, inner(ts))) or recorded[-1][1])
    twin = experiment.get_adapters_and_goal()
    agent.reset(np.random.default_rng(case['first']), observe(0, 2.0))
    goal = np.array(agent.goal.goal_position_material_frame)
    first, ended = True, False
    for k in range(case['depth']):
      c = chooser.choose('op', 4) if k else case['first']
      where = f'{case} {chooser.taken}'
      if c == 3 or ended:  # Reset.
        agent.reset(np.random.default_rng(k), observe(1, 2.0))
        goal = np.array(agent.goal.goal_position_material_frame)
        first, ended = True, False
      else:
        silicon = (0, None, 3)[c]
        o = observe(silicon, 1.5 + k)
        recorded.clear()
        controls = agent.step(o)
        if silicon is None:
          ctx.check(not recorded and len(controls) == 1 and
                    controls[0].dwell_time.total_seconds() == 0, 'real:rescan', where)
        else:
          (ts, action), = recorded
          at = np.asarray(view.microscope_frame_to_material_frame(
              inside[order[silicon]]))
          reached = np.linalg.norm(at - goal) < 0.71
          ended = reached
          kind = (dm_env.StepType.LAST if reached else
                  dm_env.StepType.FIRST if first else dm_env.StepType.MID)
          ctx.check(ts.step_type == kind, 'real:step_type', f'{where}: {ts}')
          if reached:
            ctx.check(ts.discount == 0 and abs(ts.reward - 0.9967 ** (1.5 + k)) < 1e-9,
                      'real:termination', f'{where}: {ts}')
          elif not first:
            ctx.check(ts.reward == 0 and abs(ts.discount - 0.9967 ** (1.5 + k)) < 1e-9,
                      'real:transition', f'{where}: {ts}')
          want = twin.action_adapter.get_action(o, action)
          ctx.check(util.same(util.snap(list(want)), util.snap(list(controls)), 1e-12),
                    'real:controls', where)
          f = twin.feature_constructor.get_features(o, agent.goal)
          ctx.check(util.same(util.snap(f), util.snap(ts.observation)),
                    'real:features', where)
          first = False
      ctx.step()
      ctx.state(case['experiment'], case['first'], tuple(chooser.taken[-3:]), first)
    ctx.trace()

  for _ in core.explore(history):
    pass
