"""C21: aggregation of evaluation results."""

from mc import util

PROPERTY = 'C21'
LEVEL = 'model_checking'
RULE = (
    'every sequence of up to four results from a set of six (reached or not, with'
    ' different times, rewards and numbers of actions), and longer ones built'
    ' from them, aggregated in every order of their listing, against exact'
    ' averages over the runs that reached the goal. A state is the multiset of'
    ' results.'
)
ASSUMPTIONS = ['at least one result is given']


def cases(tier):
  for n in range(1, 5 if tier == 'quick' else 6):
    for first in range(6):
      yield {'n': n, 'first': first}
  yield {'n': 'long'}


def templates():
  from putting_dune import eval_lib

  nan = float('nan')
  return [
      eval_lib.EvalResult(1, True, 3, 0.25, 12.5, 0.75),
      eval_lib.EvalResult(2, True, 10, 4.0, 100.0, 0.125),
      eval_lib.EvalResult(3, True, 0, 0.0, 2.0, 0.0),
      eval_lib.EvalResult(4, False, 7, nan, nan, 0.0),
      eval_lib.EvalResult(5, False, 200, nan, nan, 0.5),
      eval_lib.EvalResult(6, True, 1, 1e-6, 1e6, -3.0),
  ]


def run_case(ctx, case):
  import itertools

  t = templates()
  if case['n'] == 'long':
    for k in range(1, 60):
      verify(ctx, [t[(i * i + k) % 6] for i in range(k)], ('long', k))
    for k in (100, 1000):
      verify(ctx, [t[i % 6] for i in range(k)], ('long', k))
    return
  for rest in itertools.product(range(6), repeat=case['n'] - 1):
    key = (case['first'],) + rest
    verify(ctx, [t[i] for i in key], tuple(sorted(key)))


def verify(ctx, results, key):
  from fractions import Fraction
  from putting_dune import eval_lib

  for given in (results, tuple(results)):
    before = util.snap(list(results))
    got = eval_lib.aggregate_results(given)
    ctx.check(util.same(before, util.snap(list(results))), 'modified', f'{key}')
    good = [r for r in results if r.reached_goal]
    n = max(len(good), 1)

    def average(name):
      return float(sum(Fraction(getattr(r, name)) for r in good) / n)

    want = {
        'average_num_times_reached_goal': len(good) / len(results),
        'average_num_actions_taken': average('num_actions_taken'),
        'average_agent_seconds_to_goal': average('agent_seconds_to_goal'),
        'average_environment_seconds_to_goal': average('environment_seconds_to_goal'),
        'average_total_reward': average('total_reward'),
        'average_seconds_to_goal': average('agent_seconds_to_goal') + average(
            'environment_seconds_to_goal'),
    }
    for name, value in want.items():
      ctx.check(abs(getattr(got, name) - value) <= 1e-9 * max(1, abs(value)), name,
                lambda: f'{key}: {got} {want}')
    ctx.step()
  ctx.state(key)
  ctx.trace()
  ctx.outcome('some reached' if good else 'none reached')
