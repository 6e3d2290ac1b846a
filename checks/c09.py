"""C09: goals of an episode."""

from mc import util

PROPERTY = 'C09'
LEVEL = 'model_checking'
RULE = (
    'selection: every initial observation (layouts with atoms at, below and above'
    ' the limits of the range, square, oblong and distant views, one, several or'
    ' no silicon) and every choice the generator can make, against a brute-force'
    ' list; episodes: every sequence of observations up to the depth (silicon at,'
    ' near, just inside or outside the goal radius; moving views; new goals in'
    ' between). A state is (layout, view, choice) or (sequence).'
)
ASSUMPTIONS = [
    'distances are compared with the goal radius outside a 1e-6 band',
    'the goal is chosen with choice, integers or random of the generator',
]

VIEWS = ((0, 0, 20, 20), (-7.5, 3.0, 12.5, 43.0), (1000.0, -400.0, 1030.0, -385.0),
         (-8, -8, 8, 8))
RADIUS = 1.42 / 2
GAMMA = 0.9967


def layouts():
  """Atoms in angstrom relative to the silicon, and their elements."""
  import numpy as np

  honey = util.honeycomb(3, angle=0.2)
  line = np.array([[0, 0], [0.05, 0], [0.0999, 0.0], [0.11, 0], [49.9, 0],
                   [-50.2, 0], [0, 49.99], [30, 41], [0, -0.0999], [0, 0.2]])
  return {
      'sheet': (honey, [14] + [6] * (len(honey) - 1)),
      'range': (line, [14] + [6] * (len(line) - 1)),
      # Exactly on the limits, in the last view.
      'limits': (np.array([[0, 0], [2, 0], [0, -3], [4.5, 0], [1, 1], [3, -3]]),
                 [14, 6, 6, 6, 6, 6]),
      'alone': (np.zeros((1, 2)), [14]),
      'too_near_or_far': (np.array([[0.0, 0], [0.05, 0.05], [60, 60]]), [14, 6, 6]),
      'one_candidate': (np.array([[3.0, -2.0], [0, 0], [0.0, 0.01]]), [6, 14, 6]),
      'two_silicon': (np.array([[0.0, 0], [2.0, 1.0], [-1.0, 4.0]]), [14, 6, 14]),
      'no_silicon': (np.array([[0.0, 0], [2.0, 1.0]]), [6, 6]),
      'nothing': (np.zeros((0, 2)), []),
  }


def cases(tier):
  for name in layouts():
    for v in range(len(VIEWS)):
      if name == 'limits' and v != len(VIEWS) - 1:
        continue
      for limits in (None, (0.1, 3.0), (2.0, 4.5)):
        yield {'kind': 'select', 'layout': name, 'view': v,
               'limits': list(limits) if limits else None}
  for first in range(7):
    for v in range(len(VIEWS)):
      yield {'kind': 'episode', 'first': first, 'view': v,
             'depth': 4 if tier != 'quick' else 3}


def observe(positions, numbers, view, elapsed=3.5):
  """An observation of atoms at `positions` (material frame)."""
  import numpy as np

  lo, hi = np.array(view[:2], float), np.array(view[2:], float)
  p = (np.asarray(positions, float).reshape(-1, 2) - lo) / (hi - lo)
  return util.observation(util.grid(p, np.asarray(numbers, int)), util.fov(*view),
                          seconds=elapsed)


def run_case(ctx, case):
  (select if case['kind'] == 'select' else episode)(ctx, case)


def select(ctx, case):
  import numpy as np
  from mc import rng
  from putting_dune import goals, graphene

  view = VIEWS[case['view']]
  lo, hi = np.array(view[:2], float), np.array(view[2:], float)
  offsets, numbers = layouts()[case['layout']]
  # These are exact, so that limits are, too.
  centre = (lo + hi) / 2 + [0.25, -0.25]
  p = offsets + centre
  obs = observe(p, numbers, view)
  before = util.snap(obs)
  goal = goals.SingleSiliconGoalReaching()
  limits = case['limits'] or (0.1, 50.0)
  if case['limits']:
    goal.goal_range_angstroms = tuple(limits)
  si = [i for i, n in enumerate(numbers) if n == 14]
  if si:
    rel = (p - lo) / (hi - lo) - 0.5
    s = min(si, key=lambda i: float((rel[i] ** 2).sum()))
    d = np.linalg.norm(p - p[s], axis=1)
    want = {tuple(np.round(p[i], 6)) for i in range(len(p))
            if limits[0] < d[i] < limits[1]}
  else:
    want = None
  got = set()
  # So many that each would be chosen even if all atoms were candidates.
  draws = max(len(p), 1) if want else 1
  for q in range(draws):
    quantile = (q + 0.5) / draws
    scripted = rng.ScriptedRng(quantiles=[quantile] * 4)
    error = util.raises(goal.reset, scripted, obs)
    ctx.step()
    ctx.state(case['layout'], case['view'], case['limits'], q)
    if want is None:
      ctx.check(isinstance(error, graphene.SiliconNotFoundError), 'no_silicon',
                f'{case} {error!r}')
      ctx.outcome('no silicon')
      continue
    if not want:
      ctx.check(isinstance(error, RuntimeError) and not isinstance(
          error, graphene.SiliconNotFoundError), 'no_goal', f'{case} {error!r}')
      ctx.outcome('no goal')
      continue
    ctx.check(error is None, 'rejected', f'{case} {error!r}')
    at = np.asarray(goal.goal_position_material_frame, float)
    ctx.check(at.shape == (2,), 'goal:shape', f'{at}')
    key = [w for w in want if np.hypot(w[0] - at[0], w[1] - at[1]) < 1e-4]
    ctx.check(len(key) == 1, 'goal:not_a_candidate', lambda: f'{case} {at} {want}')
    got.add(key[0])
    current = goal.current_goal
    ctx.check(abs(current.x - at[0]) < 1e-9 and abs(current.y - at[1]) < 1e-9,
              'current_goal', f'{current} {at}')
  if want:
    ctx.check(got == want, 'goal:some_never_chosen',
              lambda: f'{case} {want - got} missing')
    ctx.outcome('chosen')
  ctx.check(util.same(before, util.snap(obs)), 'observation_modified', f'{case}')
  ctx.trace()


def episode(ctx, case):
  import numpy as np
  from mc import core, rng
  from putting_dune import goals

  angle = 0.7
  # Where the silicon is, relative to the goal.
  spots = ((0, 0), (RADIUS - 1e-5, angle), (RADIUS + 1e-5, angle),
           (RADIUS * 0.99, 2.9), (1.42, 4.0), (500.0, 1.0), (0.3, 5.5))

  def history(chooser):
    goal = goals.SingleSiliconGoalReaching()
    view = VIEWS[case['view']]
    centre = np.array([view[0] + view[2], view[1] + view[3]]) / 2
    honey = util.honeycomb(3, angle=0.2, centre=centre)
    numbers = [14] + [6] * (len(honey) - 1)
    goal.reset(rng.ScriptedRng(quantiles=[0.33] * 4), observe(honey, numbers, view))
    aim = np.array(goal.goal_position_material_frame, float)
    for k in range(case['depth']):
      c = chooser.choose('spot', len(spots) + 1) if k else case['first']
      where = f'{case} {chooser.taken}'
      if c == len(spots):
        goal.reset(rng.ScriptedRng(quantiles=[0.8 - 0.2 * k] * 4),
                   observe(honey, numbers, view))
        aim = np.array(goal.goal_position_material_frame, float)
        continue
      r, a = spots[c]
      si = aim + r * np.array([np.cos(a), np.sin(a)])
      # The view moves around and is not always centred or square.
      w, h = (20, 20) if k % 2 else (24, 15)
      v = (si[0] - w * 0.4, si[1] - h * 0.6, si[0] + w * 0.6, si[1] + h * 0.4)
      elapsed = 2.0 + 3.25 * k
      obs = observe(np.vstack([honey[1:], si]), [6] * (len(honey) - 1) + [14], v,
                    elapsed)
      before = util.snap(obs)
      out = goal.calculate_reward_and_terminal(obs)
      near = r < RADIUS
      ctx.check(bool(out.is_terminal) == near, 'terminal', f'{where} {out}')
      ctx.check(not out.is_truncated, 'truncated', f'{where} {out}')
      ctx.check(abs(out.reward - (GAMMA**elapsed if near else 0.0)) < 1e-9,
                'reward', f'{where} {out}')
      ctx.check(np.abs(np.asarray(goal.goal_position_material_frame) - aim).max()
                == 0, 'goal:moved', where)
      ctx.check(util.same(before, util.snap(obs)), 'observation_modified', where)
      ctx.outcome('near' if near else 'far')
      ctx.state('episode', case['view'], tuple(chooser.taken[:k + 1]))
      ctx.step()
    ctx.trace()

  for _ in core.explore(history):
    pass
