"""C27: alignment of labelled point sets."""

import itertools

from mc import util

PROPERTY = 'C27'
LEVEL = 'model_checking'
RULE = (
    'every reference layout, shift of a polar grid, order, subset and labelling'
    ' of the points, number of iterations, trimming, cutoff, limit and initial'
    ' guess; every sequence of such alignments up to the depth, whose results'
    ' must be those of the alignments on their own. A state is the combination.'
)
ASSUMPTIONS = [
    'the shift is less than half the distance between points of one label',
    'no annealing noise is asked for',
]


def layouts():
  import numpy as np

  # Points of one label are far apart, those of different labels may be close.
  square = np.array([[x, y] for x in range(4) for y in range(3)], float) * 3
  return {
      'one label': (square, np.zeros(len(square), int)),
      'two labels': (np.concatenate([square, square + [0.9, 0.4]]),
                     np.repeat([0, 1], len(square))),
      'three labels': (np.concatenate([square, square + [0.9, 0.4], square[:5] - [0.8, 0.7]]),
                       np.repeat([2, 0, 1], [len(square), len(square), 5])),
      'scattered': (np.array([[0, 0], [4.1, 0.3], [-3.5, 2.2], [0.4, 7.0], [5.5, 5.0]]),
                    np.array([0, 0, 0, 0, 0])),
  }


ORDERS = (None, 'reversed', 3)
OPTIONS = (
    {}, {'iterations': 1}, {'iterations': 3, 'trim': 0.25}, {'trim': 0.5},
    {'mask_above': 2.0}, {'init_shift': None}, {'init_shift': (0.3, -0.2)},
    {'max_shift': 0.4}, {'max_shift': 50.0},
)


def cases(tier):
  for name in layouts():
    for k in range(8 if tier == 'quick' else 16):
      yield {'kind': 'shifts', 'layout': name, 'direction': k / (8 if tier == 'quick' else 16)}
  for first in range(8):
    yield {'kind': 'sequences', 'first': first}
  yield {'kind': 'offsets'}


def run_case(ctx, case):
  globals()[case['kind']](ctx, case)


def ordered(p, c, order):
  import numpy as np

  if order is None:
    return p, c
  index = np.arange(len(p))[::-1] if order == 'reversed' else (
      np.random.RandomState(order).permutation(len(p)))
  return p[index], c[index]


def arguments(options):
  import numpy as np

  options = dict(options)
  if options.get('init_shift') is not None:
    options['init_shift'] = np.array(options['init_shift'])
  return options


def shifts(ctx, case):
  import cmath
  import numpy as np
  from putting_dune import alignment

  p, c = layouts()[case['layout']]
  for r in (0.0, 0.05, 0.4, 0.9, 1.3):
    z = cmath.rect(r, 0.1 + 6.283185307 * case['direction'])
    d = np.array([z.real, z.imag])
    present = sorted(set(c.tolist()))
    # Without each label that not all points have.
    without = [('without', k) for k in present if len(present) > 1]
    for order, keep, (i, options) in itertools.product(
        ORDERS, ['all', 'some'] + without, enumerate(OPTIONS)):
      new, labels = ordered(p + d, c, order)
      if keep == 'some':
        # Fewer points than in the reference, all labels still present.
        chosen = np.arange(len(new)) % 3 != 1
        if set(labels[chosen]) != set(labels):
          continue
        new, labels = new[chosen], labels[chosen]
      elif keep != 'all':
        chosen = labels != keep[1]
        new, labels = new[chosen], labels[chosen]
      where = f'{case} {r} {order} {keep} {options}'
      got = util.pure(ctx, 'pure', alignment.align_latest, new, p, labels, c,
                      **arguments(options))
      ctx.check(np.shape(got) == (2,), 'shape', where)
      limit = options.get('max_shift', 2.0)
      ctx.check(np.linalg.norm(got) <= limit + 1e-9, 'limit', f'{where}: {got}')
      if r <= limit and r + (0.37 if options.get('init_shift') else 0) < 1.4:
        ctx.check(util.close(got, -d, 1e-6), 'shift', f'{where}: {got} instead of {-d}')
      elif r > limit and options.get('iterations', 20) > 1:
        ctx.check(util.close(got, -d * limit / r, 1e-3), 'limited', f'{where}: {got}')
      ctx.step()
      ctx.state(case['layout'], case['direction'], r, order, keep, i)
  ctx.trace()


def sequences(ctx, case):
  """Whatever was aligned before does not matter."""
  import numpy as np
  from putting_dune import alignment

  calls = []
  for name in ('two labels', 'scattered'):
    p, c = layouts()[name]
    for d in ((0.5, -0.3), (-1.0, 0.2)):
      for options in ({}, {'init_shift': (0.1, 0.1)}):
        calls.append((p, c, np.array(d), options))
  for rest in itertools.product(range(8), repeat=2 if not ctx.deep else 3):
    for k in (case['first'],) + rest:
      p, c, d, options = calls[k]
      got = alignment.align_latest(p + d, p, c, c, **arguments(options))
      ctx.check(util.close(got, -d, 1e-6), 'sequence', f'{case} {rest}: {got} {d}')
      # Changing a result must not change later ones.
      got += 100.0
      ctx.step()
    ctx.state('sequence', case['first'], rest)
    ctx.trace()


def offsets(ctx, case):
  """The offset to the closest point, for every pair of small sets."""
  import numpy as np
  from putting_dune import alignment

  points = [(0.0, 0.0), (1.0, 0.1), (0.3, 2.0), (-1.7, 0.9), (5.0, 5.0)]
  subsets = [s for n in range(1, 4) for s in itertools.permutations(range(5), n)]
  for a in subsets:
    for b in subsets[::3 if not ctx.deep else 1]:
      left = np.array([points[i] for i in a]) + [0.2, 0.15]
      right = np.array([points[i] for i in b])
      for mask in (None, 1.0, 2.5):
        got = alignment.get_offsets(left, right, *(() if mask is None else (mask,)))
        want = []
        for x in left:
          d = [np.hypot(*(y - x)) for y in right]
          j = min(range(len(d)), key=lambda j: d[j])
          if mask is None or d[j] < mask:
            want.append(right[j] - x)
        ctx.check(util.close(got, np.array(want).reshape(-1, 2)), 'offsets',
                  f'{a} {b} {mask}: {got} {want}')
        ctx.step()
      ctx.state('offsets', a, b)
  ctx.trace()
