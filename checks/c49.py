"""C49: pictures of an environment at any point of its episodes."""

from mc import util
from checks import c08
from checks import c35

PROPERTY = 'C49'
LEVEL = 'model_checking'
RULE = (
    'every history of resets, two kinds of steps and renderings up to the depth,'
    ' for environments with every kind of action and observation and with a goal'
    ' without a place: each picture is compared with the axes it was drawn from,'
    ' and these with the current observation; every other result with that of an'
    ' environment which is never rendered. A state is (kind, history).'
)
ASSUMPTIONS = ['the beam is shown where it was in the view in which it was applied']
KINDS = ('state', 'right', 'left', 'prior', 'delta', 'material', 'aimless', 'pixels')
OPS = ('render', 'reset', 0, 1)


def cases(tier):
  for kind in KINDS:
    for first in range(len(OPS)):
      for second in range(len(OPS)):
        yield {'env': kind, 'prefix': [first, second],
               'depth': (4 if tier == 'quick' else 6) - (kind == 'pixels')}


def make(kind):
  env = aimless() if kind == 'aimless' else c08.make(kind)
  env.seed(4)
  env.reset()
  return env


def aimless():
  """An environment whose goal is not a place."""
  import numpy as np
  from dm_env import specs
  from putting_dune import feature_constructors
  from putting_dune import goals

  class Anywhere(goals.Goal):
    goal_position_material_frame = None

    def __init__(self):
      self._inner = goals.SingleSiliconGoalReaching()

    def reset(self, rng, initial_observation):
      return self._inner.reset(rng, initial_observation)

    def calculate_reward_and_terminal(self, observation):
      return self._inner.calculate_reward_and_terminal(observation)

  class Nothing(feature_constructors.FeatureConstructor):

    def reset(self):
      pass

    def get_features(self, observation, goal):
      return np.zeros(1)

    def observation_spec(self):
      return specs.Array((1,), float)

    @property
    def requires_image(self):
      return False

  return c08.make('state', Nothing(), Anywhere())


class Drawn:
  """Records the figures that are drawn, and their pixels."""

  def __enter__(self):
    from matplotlib import figure

    self.figures, self._cls, self._draw = [], figure.Figure, figure.Figure.draw
    record = self.figures

    def draw(fig, renderer, _draw=self._draw):
      out = _draw(fig, renderer)
      record.append((fig, read(fig)))
      return out

    figure.Figure.draw = draw
    return self

  def __exit__(self, *exc):
    self._cls.draw = self._draw


def read(fig):
  return [(c35.shown(ax), tuple(ax.get_xlim()), tuple(ax.get_ylim())) for ax in fig.axes]


_REFERENCE = {}


def reference(kind, ops):
  """The results of the operations in an environment without renderings."""
  key = (kind, ops)
  if key not in _REFERENCE:
    env = make(kind)
    _REFERENCE[key] = [c08.result(env, c08.act(env, op, None)) for op in ops]
  return _REFERENCE[key]


def run_case(ctx, case):
  import itertools

  kind = case['env']
  import matplotlib
  matplotlib.use('Agg')
  from matplotlib import pyplot as plt

  for rest in itertools.product(OPS, repeat=case['depth'] - 2):
    history = tuple(OPS[i] for i in case['prefix']) + rest
    if 'render' not in history:
      continue
    env = make(kind)
    plain, before = [], None
    for op in history:
      if op != 'render':
        plain.append(op)
        got = c08.result(env, c08.act(env, op, None))
        before = None
        ctx.check(util.same(got, reference(kind, tuple(plain))[-1]), 'render:disturbs',
                  f'{kind} {history}')
        continue
      figures = plt.get_fignums()
      with Drawn() as drawn:
        picture = env.render()
      ctx.check(plt.get_fignums() == figures, 'render:leak',
                f'{kind} {history}: figures {plt.get_fignums()} are left open')
      verify(ctx, env, picture, drawn.figures, f'{kind} {history}')
      if before is not None:
        ctx.check(util.same(util.snap(picture), before), 'render:repeat',
                  f'{kind} {history}')
      before = util.snap(picture)
      ctx.step()
    ctx.state(kind, history)
    ctx.trace()


def verify(ctx, env, picture, figures, where):
  import numpy as np

  o = env.last_microscope_observation
  ctx.check(isinstance(picture, np.ndarray) and picture.dtype == np.uint8 and
            picture.ndim == 3 and picture.shape[2] == 3 and
            picture.shape[0] == picture.shape[1], 'render:picture', where)
  ctx.check(len(figures) > 0, 'render:nothing_drawn', where)
  fig, axes = figures[-1]
  pixels = np.asarray(fig.canvas.buffer_rgba())[..., :3]
  ctx.check(picture.shape == pixels.shape and (picture == pixels).all(),
            'render:pixels', where)
  ctx.check(len(axes) == 1, 'render:axes', where)
  (sets, texts), x, y = axes[0]
  goal = getattr(env.goal, 'goal_position_material_frame', None)
  if goal is not None:
    a, b = (np.array(c.coords)[0] for c in (o.fov.lower_left, o.fov.upper_right))
    goal = (np.asarray(goal) - a) / (b - a)
  beam = None
  if o.controls:
    beam = np.array(o.controls[-1].position.coords)[0]
  p, n = np.asarray(o.grid.atom_positions), np.asarray(o.grid.atomic_numbers)
  want = [('carbon', p[n == 6]), ('silicon', p[n == 14])]
  want += [('goal', [goal])] if goal is not None else []
  want += [('beam', [beam])] if beam is not None else []
  for name, points in want:
    ctx.check(c35.has(sets, points), 'render:' + name, lambda: f'{where} {points} {sets}')
  ctx.check(len(sets) == len(want) and not texts, 'render:extra', lambda: f'{where} {sets}')
  ctx.check(x == (0, 1) and y == (0, 1), 'render:limits', where)
