"""C15: comparing and hashing grids."""

import itertools

from mc import util

PROPERTY = 'C15'
LEVEL = 'model_checking'
RULE = (
    'all pairs of grids with up to n atoms on a small set of separated places,'
    ' every assignment of elements, in two listing orders, and with every atom'
    ' displaced by less or more than the tolerance; all permutations of the'
    ' larger grids for the hash. A state is a pair of grids.'
)
ASSUMPTIONS = [
    'atoms of one grid are further apart than twice the tolerance (0.001)',
    'displacements within 10 % of the tolerance are not tried',
]

PLACES = ((0.0, 0.0), (1.5, 0.25), (-2.0, 3.0), (0.0, 0.0078125))
SHIFTS = ((0.0, 0.0), (0.0005, 0.0), (-0.0006, 0.0006), (0.0012, 0.0), (0.0008, 0.0008),
          (0.0, -0.01), (1.5, 0.25))


def cases(tier):
  n = 3 if tier != 'quick' else 2
  grids = list(all_grids(n))
  for i in range(len(grids)):
    yield {'kind': 'pairs', 'n': n, 'i': i}
  for base in range(6):
    yield {'kind': 'shifts', 'base': base}
  for base in range(6):
    yield {'kind': 'hash', 'base': base}


def all_grids(n):
  """(place, element) lists: the places in order."""
  for k in range(n + 1):
    for places in itertools.combinations(range(len(PLACES)), k):
      for elements in itertools.product((6, 14), repeat=k):
        yield tuple(zip(places, elements))


def make(spec, order=1, dtype=float):
  import numpy as np

  spec = spec[::order]
  return util.grid(np.array([PLACES[p] for p, _ in spec], dtype).reshape(-1, 2),
                   [e for _, e in spec])


def bases():
  import numpy as np

  honey = util.honeycomb(1, angle=0.3)
  return [
      (np.array([[0.25, -0.5]]), [14]),
      (np.array([[0.0, 0.0], [0.5, 0.5]]), [6, 14]),
      (np.array([[1.0, 2.0], [3.0, -1.0], [0.0, 0.0]]), [6, 6, 14]),
      (honey[:6], [14, 6, 6, 6, 6, 6]),
      (honey[:5] + 100.0, [6, 6, 6, 6, 14]),
      (np.array([[0.0, 0.0], [0.0, 1.0], [1.0, 0.0], [1.0, 1.0]]), [6, 7, 8, 14]),
  ]


def compare(ctx, a, b, want, where):
  before = util.snap([a, b])
  ctx.check((a == b) is want or (isinstance((a == b), bool) and (a == b) == want),
            'equality', where)
  ctx.check((b == a) == want, 'equality:not_symmetric', where)
  ctx.check((a != b) == (not want), 'inequality', where)
  ctx.check(util.same(before, util.snap([a, b])), 'modified', where)
  ctx.step()
  ctx.outcome('equal' if want else 'different')


def run_case(ctx, case):
  import numpy as np
  from putting_dune import microscope_utils as mu

  if case['kind'] == 'pairs':
    grids = list(all_grids(case['n']))
    a = grids[case['i']]
    for b in grids:
      for order in (1, -1):
        compare(ctx, make(a), make(b, order), set(a) == set(b), f'{a} {b} {order}')
        if set(a) == set(b):
          x, y = make(a), make(b, order)
          ctx.check(hash(x) == hash(y), 'hash:order', f'{a} {order}')
      ctx.state(a, b)
    ctx.trace()
    return

  p, n = bases()[case['base']]
  n = np.array(n)
  if case['kind'] == 'shifts':
    for which in range(len(p)):
      for shift in SHIFTS:
        for everyone in (False, True):
          q = p.copy()
          if everyone:
            q += shift
          else:
            q[which] += shift
          small = np.hypot(*shift) < 0.001
          if len({tuple(np.round(x, 6)) for x in q}) < len(q):
            continue
          same_set = small or {tuple(np.round(x, 6)) + (int(e),) for x, e in zip(q, n)
                               } == {tuple(np.round(x, 6)) + (int(e),)
                                     for x, e in zip(p, n)}
          for order in (1, -1):
            compare(ctx, mu.AtomicGrid(p, n), mu.AtomicGrid(q[::order], n[::order]),
                    bool(same_set), f'{case} {which} {shift} {everyone} {order}')
          ctx.state('shift', case['base'], which, shift, everyone)
      # Another element, one atom less, one atom more.
      m = n.copy()
      m[which] = 7 if m[which] != 7 else 6
      compare(ctx, mu.AtomicGrid(p, n), mu.AtomicGrid(p, m), False, f'{case} element')
      keep = np.arange(len(p)) != which
      compare(ctx, mu.AtomicGrid(p, n), mu.AtomicGrid(p[keep], n[keep]), False,
              f'{case} missing {which}')
      compare(ctx, mu.AtomicGrid(p, n), mu.AtomicGrid(
          np.vstack([p, p[which] + [0.0004, 0]]), np.append(n, n[which])), False,
              f'{case} twice {which}')
    ctx.trace()
    return

  g = mu.AtomicGrid(p, n)
  h = hash(g)
  ctx.check(isinstance(h, int), 'hash:type', repr(h))
  limit = 720 if len(p) < 6 or ctx.deep else 200
  for k, perm in enumerate(itertools.permutations(range(len(p)))):
    if k >= limit:
      break
    other = mu.AtomicGrid(p[list(perm)], n[list(perm)])
    ctx.check(hash(other) == h and other == g, 'hash:permutation', f'{case} {perm}')
    ctx.check(len({g: 1, other: 2}) == 1, 'hash:dictionary', f'{case} {perm}')
    ctx.state('hash', case['base'], perm)
    ctx.step()
  ctx.check(hash(mu.AtomicGrid(p.copy(), n.astype(np.int32))) == h, 'hash:type', '')
  ctx.trace()
