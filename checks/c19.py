"""C19: the log of a microscope agent."""

from mc import util

PROPERTY = 'C19'
LEVEL = 'model_checking'
RULE = (
    'every history of resets, failing resets, steps (no reward, reward, no'
    ' silicon) and flushes up to the depth, ended by an ordinary exit, an exit'
    ' with an exception, or a flush, into a fresh or used directory; the three'
    ' files are parsed after every flush and compared with a reference log. A'
    ' state is (episode, steps in it, flushed, operation).'
)
ASSUMPTIONS = [
    'an episode counts once it has at least one step',
    'observations in the log are exact up to single precision',
]

OPS = 'RcrnFB'


def cases(tier):
  depth = 4 if tier == 'quick' else 5
  for a in OPS:
    for b in OPS:
      for end in ('exit', 'error', 'flush'):
        yield {'prefix': a + b, 'depth': depth - (tier != 'quick' and end != 'exit'), 'end': end}
  for end in ('exit', 'error', 'flush'):
    yield {'real': True, 'end': end, 'prefix': '', 'depth': 0}


def make_agent(real):
  """A microscope agent whose goal follows a script."""
  import numpy as np
  from putting_dune import goals, graphene, microscope_agent
  from putting_dune.experiments import experiments, registry

  experiment = registry.create_microscope_experiment('relative_random_long')
  if real:
    return microscope_agent.MicroscopeAgent(np.random.default_rng(1), experiment), None
  script = {}

  class Goal(goals.SingleSiliconGoalReaching):

    def reset(self, rng, initial_observation):
      if script.get('op') == 'B':
        raise RuntimeError('no goal')
      self.goal_position_material_frame = np.array(script['goal'])

    def calculate_reward_and_terminal(self, observation):
      script['asked'] = script.get('asked', 0) + 1
      if script['op'] == 'n':
        raise graphene.SiliconNotFoundError()
      return goals.GoalReturn(*script['verdict'])

  given = experiment.get_adapters_and_goal()
  made = experiments.AdaptersAndGoal(
      given.action_adapter, given.feature_constructor, Goal())
  return microscope_agent.MicroscopeAgent(
      np.random.default_rng(1),
      experiments.MicroscopeExperiment(
          get_agent=experiment.get_agent, get_adapters_and_goal=lambda: made)), script


def parse(path):
  import csv
  import re
  from putting_dune import microscope_utils as mu

  number = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'

  def rows(name, columns):
    with open(path / name, newline='') as f:
      reader = csv.DictReader(f)
      assert sorted(reader.fieldnames) == sorted(columns), reader.fieldnames
      return list(reader)

  steps = [(int(r['episode']), int(r['episode_step']), float(r['reward']),
            float(r['elapsed_seconds']), r['terminal'].lower() in ('true', '1'))
           for r in rows('steps.csv', ('episode', 'episode_step', 'reward',
                                       'elapsed_seconds', 'terminal'))]
  episodes = []
  for r in rows('episodes.csv', ('episode', 'episode_steps', 'episode_return',
                                 'episode_goal')):
    goal = [float(x) for x in re.findall(
        number, r['episode_goal'].replace('float64', '').replace('float32', ''))]
    episodes.append((int(r['episode']), int(r['episode_steps']),
                     float(r['episode_return']), goal))
  data = (path / 'trajectories.tfrecords').read_bytes()
  trajectories, at = [], 0
  while at < len(data):  # The layout of record files: length, crc, content, crc.
    n = int.from_bytes(data[at:at + 8], 'little')
    trajectories.append(list(mu.Trajectory.from_proto_string(
        data[at + 12:at + 12 + n]).observations))
    at += 16 + n
  return steps, episodes, trajectories


def verify(ctx, path, steps, episodes, where):
  """episodes: list of dicts(steps, ret, goal, observations)."""
  got_steps, got_episodes, got_trajectories = parse(path)
  ctx.check(len(got_steps) == len(steps) and all(
      a[:2] == b[:2] and abs(a[2] - b[2]) < 1e-9 and abs(a[3] - b[3]) < 1e-9 and
      a[4] == b[4] for a, b in zip(got_steps, steps)), 'steps',
            lambda: f'{where}\n{got_steps}\nexpected\n{steps}')
  want = [(i, e['steps'], e['ret'], e['goal']) for i, e in enumerate(episodes)]
  ctx.check(len(got_episodes) == len(want) and all(
      a[:2] == b[:2] and abs(a[2] - b[2]) < 1e-9 and util.close(a[3], b[3], 1e-6)
      for a, b in zip(got_episodes, want)), 'episodes',
            lambda: f'{where}\n{got_episodes}\nexpected\n{want}')
  ctx.check([len(t) for t in got_trajectories] ==
            [len(e['observations']) for e in episodes], 'trajectories:lengths',
            lambda: f'{where}: {[len(t) for t in got_trajectories]}')
  for t, e in zip(got_trajectories, episodes):
    for a, b in zip(t, e['observations']):
      ctx.check(util.same(util.snap(a.grid.atom_positions.astype(float)),
                          util.snap(b.grid.atom_positions), 1e-5) and
                list(a.grid.atomic_numbers) == list(b.grid.atomic_numbers) and
                abs((a.elapsed_time - b.elapsed_time).total_seconds()) < 1e-4 and
                len(a.controls) == len(b.controls) and
                (a.image is None) == (b.image is None),
                'trajectories:content', where)


def run_case(ctx, case):
  import numpy as np
  import pathlib
  import shutil
  from mc import boot, core
  from putting_dune import microscope_agent

  base = pathlib.Path(boot.scratch_dir())
  names = ('steps.csv', 'episodes.csv', 'trajectories.tfrecords')
  view = util.fov(0, 0, 10, 10)
  count = [0]

  def observe(silicon=True):
    count[0] += 1
    k = count[0]
    p = np.array([[0.5, 0.5], [0.63, 0.5], [0.43, 0.62], [0.44, 0.38], [0.9, 0.1]])
    return util.observation(
        util.grid(p + 0.001 * (k % 50), [14 if silicon else 6, 6, 6, 6, 6]), view,
        (util.control(0.1, 0.2, 1.0 + k % 3),) * (k % 3), 2.0 + 0.25 * (k % 7),
        image=np.full((2, 3, 1), k, np.float32) if k % 2 else None)

  if case.get('real'):
    return real(ctx, case, base, observe)

  def history(chooser):
    directory = base / 'log'
    if directory.exists():
      shutil.rmtree(directory)
    directory.mkdir()
    used = len(case['prefix']) and case['prefix'][1] in 'rF'
    if used:
      for n in names:
        (directory / n).write_bytes(b'old content\n' * 50)
    inner, script = make_agent(False)
    logger = microscope_agent.MicroscopeAgentLogger(
        inner, logdir=str(directory) if used else directory)
    steps, episodes, current = [], [], None
    flushed = None
    done = ''
    script['goal'] = [1.0, 2.0]
    inner.goal.goal_position_material_frame = np.array([1.0, 2.0])
    after_failure = False
    with_error = case['end'] == 'error'
    try:
      with logger as agent:
        ctx.check(agent.goal is inner.goal, 'proxy', '')
        for k in range(case['depth']):
          if k < 2:
            op = case['prefix'][k]
            if after_failure and op not in 'RFB':
              return
          elif after_failure:
            op = 'RF'[chooser.choose('op', 2)]
          else:
            op = OPS[chooser.choose('op', len(OPS))]
          done += op
          script['op'] = op
          if op in 'RB':
            current = None
            script['goal'] = [1.0 + k, -2.5 * k]
            try:
              agent.reset(np.random.default_rng(k), observe())
              ctx.check(op == 'R', 'failing_reset:swallowed', done)
            except RuntimeError:
              ctx.check(op == 'B', 'reset', done)
            after_failure = op == 'B'
          elif op == 'F':
            agent.flush()
            flushed = (list(steps), [dict(e, observations=list(e['observations']))
                                     for e in episodes])
            verify(ctx, directory, *flushed, done)
          else:
            o = observe(op != 'n')
            reward = {'c': 0.0, 'r': 0.5 + k, 'n': 0.0}[op]
            script['verdict'] = (reward, op == 'r', False)
            script['asked'] = 0
            controls = agent.step(o)
            ctx.check(isinstance(controls, list) and len(controls) == 1 and
                      (op != 'n') == (controls[0].dwell_time.total_seconds() > 0),
                      'step:controls', done)
            ctx.check(script['asked'] <= 1, 'goal_evaluated_again', done)
            if current is None:
              current = {'steps': 0, 'ret': 0.0, 'observations': [],
                         'goal': list(script['goal'])}
              episodes.append(current)
            current['steps'] += 1
            current['ret'] += reward
            current['observations'].append(o)
            steps.append((len(episodes) - 1, current['steps'], reward,
                          o.elapsed_time.total_seconds(), op == 'r'))
          ctx.step()
          ctx.state(len(episodes), current and current['steps'],
                    flushed is not None, done[-2:])
        if case['end'] == 'flush':
          agent.flush()
          verify(ctx, directory, steps, episodes, done + ' flush')
        if with_error:
          raise KeyboardInterrupt
    except KeyboardInterrupt:
      ctx.check(with_error, 'error', done)
    else:
      ctx.check(not with_error, 'error:swallowed', done)
    if with_error:
      if flushed is None:
        ctx.check(all((directory / n).exists() == bool(used) for n in names) and
                  all((directory / n).read_bytes() == b'old content\n' * 50
                      for n in names if used), 'error:files', done)
      else:
        verify(ctx, directory, *flushed, done + ' error')
    else:
      verify(ctx, directory, steps, episodes, done + ' end')
      logger.flush()
      verify(ctx, directory, steps, episodes, done + ' end, flushed again')
    ctx.trace()
    ctx.outcome(f'{case["end"]} episodes={len(episodes)}')

  for _ in core.explore(history):
    pass
  shutil.rmtree(base)


def real(ctx, case, base, observe):
  """Steps, flushes and resets of an agent with its own goal."""
  import itertools
  import numpy as np
  from putting_dune import microscope_agent

  for k, ops in enumerate(itertools.product('RsF', repeat=4)):
    directory = base / str(k)
    directory.mkdir()
    inner, _ = make_agent(True)
    episodes, steps = [], []
    current = None
    try:
      with microscope_agent.MicroscopeAgentLogger(inner, logdir=directory) as agent:
        agent.reset(np.random.default_rng(0), observe())
        for op in ops + ('s', 'F'):
          if op == 'R':
            agent.reset(np.random.default_rng(k), observe())
            current = None
          elif op == 's':
            o = observe()
            agent.step(o)
            verdict = inner.last_goal_return
            if current is None:
              current = {'steps': 0, 'ret': 0.0, 'observations': [],
                         'goal': list(inner.goal.goal_position_material_frame)}
              episodes.append(current)
            current['steps'] += 1
            current['ret'] += verdict.reward
            current['observations'].append(o)
            steps.append((len(episodes) - 1, current['steps'], verdict.reward,
                          o.elapsed_time.total_seconds(), verdict.is_terminal))
          else:
            agent.flush()
            verify(ctx, directory, steps, episodes, f'real {ops}')
          ctx.step()
        if case['end'] == 'error':
          raise ValueError('stop')
    except ValueError:
      ctx.check(case['end'] == 'error', 'real:error', f'{ops}')
    verify(ctx, directory, steps, episodes, f'real {ops} end')
    ctx.state('real', ops)
    ctx.trace()
