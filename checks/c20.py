"""C20: evaluation of an agent."""

from mc import util

PROPERTY = 'C20'
LEVEL = 'model_checking'
RULE = (
    'every history of an evaluation in which each step takes one of two simulated'
    ' times and one of two agent times and goes on, reaches the goal, or is'
    ' truncated, until the timeout, for suites of no, one, two and repeated'
    ' seeds, with a stand-in environment, agent and clock; plus the real'
    ' environment against a loop of its own, alone and within suites, with and'
    ' without videos. A state is (suite, seed, times so far, verdict).'
)
ASSUMPTIONS = ['the wall clock is scripted; it only advances where the script says']


def cases(tier):
  for suite in ([], [3], [3, 4], [5, 5]):
    for timeout in (9, 10, 12) if len(suite) < 2 else (5,):
      for first in range(12) if suite else (0,):
        yield {'kind': 'stub', 'suite': suite, 'timeout': timeout, 'first': first}
  yield {'kind': 'default'}
  for timeout in (0, 2, 13, 60):
    yield {'kind': 'real', 'timeout': timeout}
  yield {'kind': 'video', 'suite': [1, 2]}
  for name in ('relative_random_simple', 'relative_random_prior_rates'):
    for suite in ([0], [3], [1, 4], [4, 1], [2, 2]):
      yield {'kind': 'program', 'name': name, 'suite': suite}


OUTCOMES = [(v, e, a) for v in 'ctx' for e in (2, 4) for a in (0, 1.5)]


MOST_STEPS = 20000  # Far more than any history needs.


class Clock:
  """A stand-in for the time module."""

  def __init__(self):
    self.now = 1000.0

  def perf_counter(self):
    return self.now

  time = monotonic = process_time = perf_counter

  def perf_counter_ns(self):
    return int(self.now * 1e9)

  time_ns = monotonic_ns = perf_counter_ns

  def sleep(self, seconds):
    self.now += seconds


def run_case(ctx, case):
  globals()[case['kind']](ctx, case)


class FakeWorld:
  """The environment and the agent; choose(label, n) decides what happens."""

  def __init__(self, clock, answers):
    import datetime as dt
    import types
    import dm_env

    self.calls = calls = []
    self.observers = []
    self.steps = 0
    world = self

    class Env:
      last_microscope_observation = None
      goal = types.SimpleNamespace(goal_position_material_frame=None)
      sim = types.SimpleNamespace(add_observer=world.observers.append,
                                  remove_observer=world.observers.remove)

      def observe(self, seconds):
        self.last_microscope_observation = types.SimpleNamespace(
            elapsed_time=dt.timedelta(seconds=seconds))

      def seed(self, seed):
        calls.append(('seed', seed))

      def reset(self):
        clock.now += 50  # Not the agent's time.
        self.observe(2)
        world.last = dm_env.restart(('o', len(calls)))
        calls.append(('reset', world.last))
        return world.last

      def step(self, action):
        clock.now += 70
        v, e, _ = world.current
        self.observe(e)
        reward = 0.5 + len(calls) / 8
        o = ('o', len(calls))
        world.last = {
            'c': lambda: dm_env.transition(reward, o, 0.9),
            't': lambda: dm_env.termination(reward, o),
            'x': lambda: dm_env.truncation(reward, o, 0.9),
        }[v]()
        calls.append(('step', action, world.last, world.current))
        return world.last

    class Agent:

      def set_mode(self, mode):
        calls.append(('mode', mode))

      def step(self, time_step):
        world.current = answers()
        world.steps += 1
        if world.steps > MOST_STEPS:
          raise RuntimeError('the evaluation goes on for ever')
        clock.now += world.current[2]
        calls.append(('agent', time_step, ('a', len(calls))))
        return calls[-1][2]

    self.env, self.agent = Env(), Agent()


def judge(ctx, world, suite, timeout, results, where):
  """Compares the calls and the results with the reference evaluation."""
  import math
  from putting_dune.agents import agent_lib

  calls = list(world.calls)
  modes = [c for c in calls if c[0] == 'mode']
  ctx.check(modes and all(c[1] == agent_lib.AgentMode.EVAL for c in modes) and
            calls[0][0] == 'mode', 'mode', lambda: f'{where} {modes}')
  calls = [c for c in calls if c[0] != 'mode']
  at = 0
  ctx.check(len(results) == len(suite), 'results', f'{where} {len(results)}')
  for seed, result in zip(suite, results):
    def take(kind):
      nonlocal at
      ctx.check(at < len(calls) and calls[at][0] == kind, 'order',
                lambda: f'{where}: {kind} expected at {at} of {calls}')
      at += 1
      return calls[at - 1]

    ctx.check(take('seed')[1] == seed, 'seed', where)
    ts = take('reset')[1]
    env_time, agent_time, reward, n, verdict = 2.0, 0.0, 0.0, 0, 'c'
    while env_time + agent_time < timeout and verdict == 'c':
      _, seen, action = take('agent')
      ctx.check(seen is ts, 'agent:time_step', where)
      _, given, ts, (verdict, e, a) = take('step')
      ctx.check(given is action, 'step:action', where)
      env_time, agent_time, n = env_time + e, agent_time + a, n + 1
      reward += ts.reward
      ctx.state(len(suite), timeout, env_time, agent_time, verdict)
      ctx.step()
    reached = verdict == 't'
    ctx.check(result.seed == seed, 'result:seed', where)
    ctx.check(bool(result.reached_goal) == reached, 'result:reached_goal',
              f'{where} {result} {verdict}')
    ctx.check(result.num_actions_taken == n, 'result:num_actions_taken',
              f'{where} {result} {n}')
    ctx.check(abs(result.total_reward - reward) < 1e-9, 'result:total_reward',
              f'{where} {result} {reward}')
    for got, want in ((result.agent_seconds_to_goal, agent_time),
                      (result.environment_seconds_to_goal, env_time),
                      (result.seconds_to_goal, env_time + agent_time)):
      ctx.check(abs(got - want) < 1e-5 if reached else math.isnan(got),
                'result:seconds', f'{where} {result} {want}')
    ctx.outcome({'c': 'timeout', 't': 'goal', 'x': 'truncated'}[verdict])
  ctx.check(at == len(calls), 'extra_calls', lambda: f'{where}: {calls[at:]}')
  ctx.check(not world.observers, 'observers_left', where)
  ctx.trace()


def stub(ctx, case):
  import datetime as dt
  from mc import core
  from putting_dune import eval_lib

  clock = Clock()
  saved, eval_lib.time = eval_lib.time, clock

  def history(chooser):
    def answers():
      if not chooser.taken:
        chooser.choose('first', 1)
        return OUTCOMES[case['first']]
      return OUTCOMES[chooser.choose('step', len(OUTCOMES))]

    world = FakeWorld(clock, answers)
    suite = eval_lib.EvalSuite(tuple(case['suite']))
    results = eval_lib.evaluate(world.agent, world.env, suite,
                                timeout=dt.timedelta(seconds=case['timeout']))
    judge(ctx, world, case['suite'], case['timeout'], results,
          f'{case} {chooser.taken}')

  try:
    for _ in core.explore(history):
      pass
  finally:
    eval_lib.time = saved


def default(ctx, case):
  """The timeout is ten minutes unless another one is given."""
  from putting_dune import eval_lib

  clock = Clock()
  saved, eval_lib.time = eval_lib.time, clock
  try:
    for e, a in ((59.9, 0), (30, 30), (598, 0), (599, 0), (1, 0.5), (0, 100)):
      for last in (None, 1, 5):
        n = [0]

        def answers():
          n[0] += 1
          return ('t' if n[0] == last else 'c', e, a)

        world = FakeWorld(clock, answers)
        results = eval_lib.evaluate(world.agent, world.env,
                                    eval_lib.EvalSuite((8,)))
        judge(ctx, world, [8], 600, results, f'default {e} {a} {last}')
  finally:
    eval_lib.time = saved
  for name, n in (('tiny_eval', 10), ('small_eval', 100), ('medium_eval', 1000),
                  ('big_eval', 10000)):
    seeds = eval_lib.EVAL_SUITES[name].seeds
    ctx.check(list(seeds) == list(range(n)), 'suites', name)


def make_env():
  from putting_dune import run_helpers
  from putting_dune.experiments import registry

  experiment = registry.create_eval_experiment('relative_random_simple')
  return run_helpers.create_putting_dune_env(
      0, get_adapters_and_goal=experiment.get_adapters_and_goal,
      get_simulator_config=experiment.get_simulator_config, step_limit=9)


def make_agent():
  """Goes for the neighbour that is nearest to the goal; has no state."""
  import numpy as np
  from putting_dune.agents import agent_lib

  class Agent(agent_lib.Agent):

    def step(self, time_step):
      o = np.asarray(time_step.observation, float)
      deltas = o[2:8].reshape(3, 2)
      return deltas[np.argmax(deltas @ o[8:])].astype(np.float32)

    def set_mode(self, mode):
      self.mode = mode

  return Agent()


def reference(env, agent, seed, timeout):
  env.seed(seed)
  ts = env.reset()
  seconds = env.last_microscope_observation.elapsed_time.total_seconds()
  n, reward = 0, 0.0
  while seconds < timeout:
    ts = env.step(agent.step(ts))
    seconds += env.last_microscope_observation.elapsed_time.total_seconds()
    n, reward = n + 1, reward + ts.reward
    if ts.last():
      break
  return n, reward, bool(ts.last() and ts.discount == 0), seconds


def compare(ctx, results, suite, timeout, where):
  for seed, r in zip(suite, results):
    n, reward, reached, seconds = reference(make_env(), make_agent(), seed, timeout)
    ctx.check((r.seed, r.num_actions_taken, bool(r.reached_goal)) ==
              (seed, n, reached) and abs(r.total_reward - reward) < 1e-9 and
              (not reached or abs(r.environment_seconds_to_goal - seconds) < 1e-5),
              'real:result', f'{where}: {r} {(n, reward, reached, seconds)}')
    ctx.state('real', seed, timeout)
    ctx.step(n)
    ctx.outcome('real goal' if reached else 'real none')


def real(ctx, case):
  import datetime as dt
  import itertools
  from putting_dune import eval_lib

  clock = Clock()
  saved, eval_lib.time = eval_lib.time, clock
  try:
    for suite in [(), (0,), (1,), (2,)] + list(itertools.permutations((0, 1, 2))) + [
        (7, 7), tuple(range(10, 22))]:
      results = eval_lib.evaluate(
          make_agent(), make_env(), eval_lib.EvalSuite(tuple(suite)),
          timeout=dt.timedelta(seconds=case['timeout']))
      ctx.check(len(results) == len(suite), 'real:results', f'{case} {suite}')
      compare(ctx, results, suite, case['timeout'], f'{case} {suite}')
      ctx.trace()
  finally:
    eval_lib.time = saved


def video(ctx, case):
  import datetime as dt
  import os
  from mc import boot
  from PIL import Image
  from putting_dune import eval_lib

  directory = os.path.join(boot.scratch_dir(), 'videos', 'nested')
  clock = Clock()
  saved, eval_lib.time = eval_lib.time, clock
  try:
    env = make_env()
    before = list(env.sim._observers)  # pylint: disable=protected-access
    results = eval_lib.evaluate(
        make_agent(), env, eval_lib.EvalSuite(tuple(case['suite'])),
        timeout=dt.timedelta(seconds=6), video_save_dir=directory)
    compare(ctx, results, case['suite'], 6, 'video')
    ctx.check(list(env.sim._observers) == before, 'video:observers', '')  # pylint: disable=protected-access
  finally:
    eval_lib.time = saved
  ctx.check(sorted(os.listdir(directory)) == sorted(
      f'{s}.gif' for s in case['suite']), 'video:files', f'{os.listdir(directory)}')
  for s in case['suite']:
    with Image.open(os.path.join(directory, f'{s}.gif')) as im:
      ctx.check(im.format == 'GIF' and im.size[0] > 50, 'video:format', f'{s}')
  ctx.trace()


def program(ctx, case):
  """The program reports the aggregate of evaluating the experiment on the suite."""
  import collections
  import datetime as dt
  import os
  import re
  from unittest import mock

  import numpy as np
  from mc import boot
  from putting_dune import eval as program_
  from putting_dune import eval_lib
  from putting_dune import run_helpers
  from putting_dune.experiments import registry

  suite = eval_lib.EvalSuite(tuple(case['suite']))
  clock = Clock()
  original = eval_lib.evaluate
  called = []

  def evaluate(agent, env, eval_suite, *args, **kwargs):
    # Short, and counted.
    results = original(agent, env, eval_suite, *args, timeout=dt.timedelta(seconds=90), **kwargs)
    called.append((eval_suite, results))
    return results

  experiment = registry.create_eval_experiment(case['name'])
  videos_too = ctx.deep or (case['name'].endswith('simple') and case['suite'] == [3])
  for videos in (None, os.path.join(boot.scratch_dir(), 'videos')) if videos_too else (None,):
    said = []
    del called[:]
    with mock.patch.object(eval_lib, 'time', clock), \
        mock.patch.object(eval_lib, 'EVAL_SUITES', {'this': suite, 'other': eval_lib.EvalSuite((9,))}), \
        mock.patch.object(eval_lib, 'evaluate', evaluate), \
        mock.patch.object(program_.logging, 'info', lambda text, *args: said.append(text % args)):
      program_.main(program_.Args(case['name'], 'this', videos))
      parts = experiment.get_adapters_and_goal()
      env = run_helpers.create_putting_dune_env(
          seed=123, get_adapters_and_goal=experiment.get_adapters_and_goal,
          get_simulator_config=experiment.get_simulator_config)
      want = original(experiment.get_agent(np.random.default_rng(0), parts), env, suite,
                      timeout=dt.timedelta(seconds=90))
    ctx.check([s for s, _ in called] == [suite], 'program:suite', f'{case}')
    ctx.check(len(called) == 1 and repr(called[0][1]) == repr(want), 'program:results',
              lambda: f'{case}: {called[0][1]} instead of {want}')
    total = eval_lib.aggregate_results(want)
    text = ' '.join(said)
    rest = collections.Counter(re.findall(r'-?\d+\.\d+|nan', text))
    for value in (total.average_num_times_reached_goal, total.average_num_actions_taken,
                  total.average_seconds_to_goal, total.average_agent_seconds_to_goal,
                  total.average_environment_seconds_to_goal, total.average_total_reward):
      ctx.check(rest[f'{value:.2f}'] > 0, 'program:reported', lambda: f'{case}: {value} in {said}')
      rest[f'{value:.2f}'] -= 1
    if videos:
      ctx.check(sorted(os.listdir(videos)) == sorted({f'{s}.gif' for s in case['suite']}),
                'program:videos', lambda: f'{case}: {os.listdir(videos)}')
    ctx.state('program', case['name'], tuple(case['suite']), bool(videos))
    ctx.step(sum(r.num_actions_taken for r in want))
  ctx.trace()
