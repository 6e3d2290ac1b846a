"""C37: the built-in agents."""

from mc import util

PROPERTY = 'C37'
LEVEL = 'model_checking'
RULE = (
    'greedy agent: every orientation of the three neighbours, order of listing,'
    ' goal direction and distance, peak, fixed offset and noise of a grid,'
    ' against complex arithmetic; peak search for every position of the peak of'
    ' a grid, range and resolution; random agent: every corner, edge and middle'
    ' of the action space of every published adapter, answered by the generator.'
    ' A state is the combination of inputs.'
)
ASSUMPTIONS = [
    'goals equally far from two neighbours are left out',
    'noise is drawn from a normal distribution of the given generator',
]

PEAKS = ((1.42, 0.0), (0.58, 0.0), (2.17, -0.15), (0.0, 1.0), (-0.7, -0.4))
OFFSETS = ((0.0, 0.0), (0.3, -0.2))
NOISES = (0.0, 0.5)
ANGLES = tuple(0.37 * k for k in range(17))


def cases(tier):
  for p in range(len(PEAKS)):
    for a in range(len(ANGLES)):
      yield {'kind': 'greedy', 'peak': p, 'angle': a}
  yield {'kind': 'construction'}
  for peak in ((4.9, -4.9), (-4.8, 4.95), (-0.3, 1.4)):
    yield {'kind': 'default_search', 'peak': peak}
  for span in ((-2.0, 2.0), (-1.0, 1.0), (0.0, 3.0), ((-1.0, -3.0), (2.0, -1.0)),
               (-1.0, (2.0, 0.5))):
    for resolution in (0.05, 0.1, 0.3):
      yield {'kind': 'search', 'span': span, 'resolution': resolution}
  yield {'kind': 'random'}
  yield {'kind': 'saved'}


def run_case(ctx, case):
  globals()[case['kind']](ctx, case)


def normal_rng(values):
  """A generator whose normal draws are answered in turn by values."""
  import numpy as np

  class Normal(np.random.Generator):

    def __init__(self):
      super().__init__(np.random.PCG64(0))
      self.drawn = 0

    def normal(self, loc=0.0, scale=1.0, size=None):
      return np.asarray(loc) + np.asarray(scale) * self.standard_normal(size)

    def standard_normal(self, size=None, *args, **kwargs):
      n = 1 if size is None else int(np.prod(size))
      out = [values[(self.drawn + i) % len(values)] for i in range(n)]
      self.drawn += n
      return np.float64(out[0]) if size is None else np.array(out).reshape(size)

  return Normal()


def step_of(observation, kind='mid'):
  import dm_env

  if kind == 'first':
    return dm_env.restart(observation)
  if kind == 'last':
    return dm_env.termination(1.0, observation)
  return dm_env.transition(0.0, observation, 0.9)


def greedy(ctx, case):
  import cmath
  import itertools
  import numpy as np
  from putting_dune.agents import agent_lib

  angle = ANGLES[case['angle']]
  lengths = (1.42, 1.42, 1.42) if case['angle'] % 2 else (1.3, 1.42, 1.6)
  nb = [cmath.rect(r, angle + 2 * np.pi * j / 3) for j, r in enumerate(lengths)]
  peak = complex(*PEAKS[case['peak']])
  draws = [0.7, -1.3]
  for offset, sigma in itertools.product(OFFSETS, NOISES):
    rng = normal_rng(draws)
    agent = agent_lib.GreedyAgent(
        rng=rng, argmax=np.array(PEAKS[case['peak']]), fixed_offset=np.array(offset),
        position_noise_sigma=sigma)
    agent.set_mode(agent_lib.AgentMode.EVAL)
    for order in itertools.permutations(range(3)):
      for g in [cmath.rect(r, 0.11 + 0.53 * k) for k in range(12) for r in (0.9, 4.0, 25.0)]:
        d = sorted(abs(g - z) for z in nb)
        if d[1] - d[0] < 1e-3:
          continue
        best = min(nb, key=lambda z: abs(g - z))
        listed = [nb[j] for j in order]
        obs = np.array([3.0, 4.0] + [v for z in listed for v in (z.real, z.imag)] +
                       [g.real, g.imag], np.float32)
        before = obs.copy()
        rng.drawn = 0
        kind = ('mid', 'first', 'last')[order[0]]
        action = np.asarray(agent.step(step_of(obs, kind)))
        noise = sigma * complex(draws[0], draws[1])
        want = (peak + complex(*offset) + noise) * best / abs(best)
        where = f'{case} {offset} {sigma} {order} {g}: {action} {want}'
        ctx.check(action.shape == (2,) and
                  abs(complex(*action) - want) < 1e-5, 'greedy', where)
        ctx.check((obs == before).all(), 'greedy:modified', where)
        ctx.step()
      ctx.state(case['peak'], case['angle'], offset, sigma, order)
  ctx.trace()


def construction(ctx, case):
  import numpy as np
  from putting_dune.agents import agent_lib

  error = util.raises(lambda: agent_lib.GreedyAgent(
      rng=np.random.default_rng(0), argmax=None, transition_function=None))
  ctx.check(isinstance(error, ValueError), 'construction:nothing_given', f'{error!r}')
  # Without a generator of its own, an agent works all the same.
  for more in ({}, {'position_noise_sigma': 0.1}):
    agent = agent_lib.GreedyAgent(**more)
    obs = np.array([0, 0, 0, 1, 1, 0, -1, -1, 0, 9], np.float32)
    action = np.asarray(agent.step(step_of(obs)))
    ctx.check(action.shape == (2,) and np.abs(action - [0, 1.42]).max() < (1 if more else 1e-6),
              'construction:without generator', f'{more} {action}')
  # The default is one bond length towards the neighbour.
  agent = agent_lib.GreedyAgent(rng=np.random.default_rng(0))
  obs = np.array([0, 0, 0, 1, 1, 0, -1, -1, 0, 9], np.float32)
  ctx.check(np.abs(np.asarray(agent.step(step_of(obs))) - [0, 1.42]).max() < 1e-6,
            'construction:default', '')
  # The same seed gives the same actions, whatever happens in between.
  for sigma in (0.0, 0.3):
    runs = []
    for _ in range(2):
      agent = agent_lib.GreedyAgent(rng=np.random.default_rng(7),
                                    position_noise_sigma=sigma)
      np.random.seed(len(runs))
      runs.append([np.asarray(agent.step(step_of(obs))) for _ in range(20)])
    ctx.check(np.array_equal(runs[0], runs[1]), 'construction:seed', f'{sigma}')
    spread = np.std(np.array(runs[0]), axis=0)
    ctx.check((spread >= 0.1 * sigma).all() and (spread < 2 * sigma + 1e-9).all(),
              'construction:noise', f'{sigma} {spread}')
  ctx.state('construction')
  ctx.step()
  ctx.trace()


def search(ctx, case):
  """The transition function that is searched replaces the given peak."""
  import numpy as np
  from putting_dune.agents import agent_lib

  # Limits are numbers, or arrays with one for each direction.
  given = [np.array(b) if isinstance(b, (list, tuple)) else b for b in case['span']]
  low, high = (np.broadcast_to(b, (2,)).astype(float) for b in given)
  r = case['resolution']
  fractions = (0.0, 0.2, 0.55, 0.8, 1.0)
  for fx in fractions if r > 0.05 else (0.2, 0.8):
    for fy in fractions if r > 0.05 else (0.0, 0.55):
      peak = low + np.array([fx, fy]) * (high - low)
      other = low + high - peak

      def rates(x):
        assert np.shape(x) == (2,)
        return np.array([np.exp(-np.sum((x - peak) ** 2)),
                         3 * np.exp(-np.sum((x - other) ** 2)), 2.0])

      agent = agent_lib.GreedyAgent(
          rng=np.random.default_rng(0), transition_function=rates,
          argmax_resolution=r, low=given[0], high=given[1])
      obs = np.array([0, 0, 2, 0, -1, 1, -1, -1, 9, 0], np.float32)
      got = np.asarray(agent.step(step_of(obs)))
      ctx.check(np.abs(got - peak).max() < 0.75 * r, 'search',
                f'{case} {peak}: {got}')
      ctx.state(case['span'], r, fx, fy)
      ctx.step()
  ctx.trace()


def default_search(ctx, case):
  """Unless told otherwise, beam positions up to five Angstroms away are searched."""
  import numpy as np
  from putting_dune.agents import agent_lib

  peak = np.array(case['peak'])
  agent = agent_lib.GreedyAgent(
      transition_function=lambda x: np.array([-np.sum((x - peak) ** 2), 1.0, 1.0]))
  obs = np.array([0, 0, 2, 0, -1, 1, -1, -1, 9, 0], np.float32)
  got = np.asarray(agent.step(step_of(obs)))
  ctx.check(np.abs(got - peak).max() < 0.04, 'search:default', f'{peak}: {got}')
  ctx.state('default', case['peak'])
  ctx.step()
  ctx.trace()


def saved(ctx, case):
  """An agent that was stored as a TensorFlow model."""
  import itertools
  import tempfile
  import numpy as np
  import tensorflow as tf
  from putting_dune.agents import agent_lib, tf_eval_agent

  class Vector(tf.Module):

    def __init__(self, factor):
      self.w = tf.Variable(factor * tf.reshape(tf.range(20, dtype=tf.float32), (10, 2)))

    @tf.function(input_signature=[tf.TensorSpec((10,), tf.float32)])
    def __call__(self, x):
      return tf.linalg.matvec(self.w, x, transpose_a=True)

  class Mapping(tf.Module):

    @tf.function(input_signature=[{'image': tf.TensorSpec((4, 4, 1), tf.float32),
                                   'goal_delta_angstroms': tf.TensorSpec((2,), tf.float32)}])
    def __call__(self, x):
      return x['goal_delta_angstroms'] * tf.reduce_sum(x['image'])

  rows = np.arange(20, dtype=np.float32).reshape(10, 2)
  agents = []
  with tempfile.TemporaryDirectory() as root:
    for name, module in (('a', Vector(1.0)), ('b', Vector(-2.0)), ('c', Mapping())):
      tf.saved_model.save(module, f'{root}/{name}')
      agents.append(tf_eval_agent.TfEvalAgent(f'{root}/{name}'))
  # They no longer need their files, and do not remember earlier steps.
  factors = (1.0, -2.0)
  modes = tuple(agent_lib.AgentMode)
  for which, kind, k in itertools.product(range(3), ('first', 'mid', 'last'), range(3)):
    for mode in modes:
      agents[which].set_mode(mode)
      if which < 2:
        x = np.linspace(-1, k, 10, dtype=np.float32)
        want = factors[which] * (x @ rows)
      else:
        x = {'image': np.full((4, 4, 1), k + 1, np.float32),
             'goal_delta_angstroms': np.array([k - 1, 2.0], np.float32)}
        want = 16 * (k + 1) * x['goal_delta_angstroms']
      before = util.snap(x)
      action = agents[which].step(step_of(x, kind))
      ctx.check(isinstance(action, np.ndarray) and action.shape == (2,) and
                util.close(action, want, 1e-3), 'saved', f'{which} {kind} {k}: {action} {want}')
      ctx.check(util.same(util.snap(x), before), 'saved:modified', f'{which}')
      ctx.step()
      ctx.state('saved', which, kind, k, mode.name)
  ctx.trace()


def random(ctx, case):
  import itertools
  import numpy as np
  from mc import rng as rng_lib
  from putting_dune.agents import agent_lib
  from putting_dune.experiments import registry

  specs = []
  for name in ('relative_random', 'relative_random_long', 'relative_random_extra_long'):
    specs.append((name, registry.create_microscope_experiment(name)))
  for name in ('relative_random_simple', 'relative_random_prior_rates'):
    specs.append((name, registry.create_eval_experiment(name)))
  values = (0.0, 0.25, 0.5, 1 - 1e-12)
  for name, experiment in specs:
    given = experiment.get_adapters_and_goal()
    spec = given.action_adapter.action_spec
    n = spec.shape[0]
    low = np.broadcast_to(spec.minimum, spec.shape)
    high = np.broadcast_to(spec.maximum, spec.shape)
    for u in itertools.product(values, repeat=n):
      rng = rng_lib.ScriptedRng(uniforms=list(u) * 2)
      agent = experiment.get_agent(rng, given)
      agent.set_mode(agent_lib.AgentMode.TRAIN)
      for kind in ('first', 'mid'):
        action = np.asarray(agent.step(step_of(np.zeros(10, np.float32), kind)))
        ctx.check(action.shape == spec.shape and
                  util.close(action, low + np.array(u) * (high - low), 1e-9),
                  'random', f'{name} {u}: {action}')
        ctx.step()
      ctx.state(name, u)
    runs = []
    for k in range(2):
      agent = experiment.get_agent(np.random.default_rng(11), given)
      np.random.seed(k)
      runs.append([np.asarray(agent.step(step_of(None))) for _ in range(300)])
    runs = np.array(runs)
    ctx.check(np.array_equal(runs[0], runs[1]), 'random:seed', name)
    ctx.check((runs >= low).all() and (runs <= high).all() and
              (runs.min((0, 1)) < low + 0.05 * (high - low)).all() and
              (runs.max((0, 1)) > high - 0.05 * (high - low)).all(), 'random:range', name)
    ctx.trace()
