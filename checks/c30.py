"""C30: merging observations of the same atoms."""

import itertools

import numpy as np

from mc import util

PROPERTY = 'C30'
LEVEL = 'model_checking'
RULE = (
    'every sequence of observations up to the length, each listing a subset of'
    ' the sites in any order (or one site twice), with displacements below the'
    ' cutoff, against the mean and number of the points of each site; every'
    ' partition into groups for the clique merging; every pair of an old and a'
    ' new grid, distances around the threshold included, for the numbers. A'
    ' state is the sequence, partition or pair.'
)
ASSUMPTIONS = ['sites are further apart than twice the cutoff']

SITES = ((0.0, 0.0), (4.0, 0.5), (1.5, 5.0))
CUTOFFS = (0.7, 1.1)
# Displacements of the points of one site, at most 0.3 of the cutoff.
JITTER = ((0.0, 0.0), (0.2, 0.1), (-0.15, 0.25), (0.05, -0.3), (0.28, 0.0), (-0.1, -0.2))


def cases(tier):
  n = len(frames())
  for first in range(n):
    yield {'kind': 'naive', 'first': first, 'length': 3 if tier == 'quick' else 4}
  yield {'kind': 'edge'}
  for size in range(1, 6 if tier == 'quick' else 8):
    for first in range(3):
      yield {'kind': 'cliques', 'size': size, 'first': first}
  for first in range(len(NEW)):
    yield {'kind': 'numbers', 'first': first}
  yield {'kind': 'threshold'}


def run_case(ctx, case):
  globals()[case['kind']](ctx, case)


def frames():
  """Every ordered subset of the sites, and some with a site twice."""
  out = [p for n in range(4) for p in itertools.permutations(range(3), n)]
  return out + [(0, 0), (1, 0, 1)]


def naive(ctx, case):
  from putting_dune import alignment

  every = frames()
  for n in range(case['length']):
    for rest in itertools.product(range(len(every)), repeat=n):
      word = [every[k] for k in (case['first'],) + rest]
      # A site listed twice before it is known gives two points.
      seen, doubled = set(), False
      for frame in word:
        doubled |= any(frame.count(s) > 1 and s not in seen for s in frame)
        seen |= set(frame)
      if doubled or not seen:
        continue
      cutoff = CUTOFFS[(case['first'] + n) % 2]
      merge_frames(ctx, alignment, word, cutoff)
  ctx.trace()


def merge_frames(ctx, alignment, word, cutoff):
  order, members, arrays = [], {}, []
  for t, frame in enumerate(word):
    points = []
    for k, site in enumerate(frame):
      p = np.array(SITES[site]) + np.array(JITTER[(2 * t + site + 3 * k) % len(JITTER)]) * cutoff
      if site not in members:
        members[site] = []
        order.append(site)
      members[site].append(p)
      points.append(p)
    arrays.append(np.array(points).reshape(-1, 2))
  got, counts = util.pure(ctx, 'naive', alignment.naive_merge, arrays, cutoff)
  where = f'{word} {cutoff}: {got} {counts}'
  if ctx.check(got.shape == (len(order), 2) and np.shape(counts) == (len(order),),
               'naive:shape', where):
    ctx.check(util.close(got, [np.mean(members[s], 0) for s in order]), 'naive:mean', where)
    ctx.check(util.close(counts, [len(members[s]) for s in order]), 'naive:counts', where)
  ctx.state(tuple(word), cutoff)
  ctx.step()


def edge(ctx, case):
  """Points closer than the cutoff are joined to the closest, others are not."""
  from putting_dune import alignment

  for cutoff, k, gap in itertools.product((0.5, 0.7, 1.1, 2.0), range(24),
                                          (-1e-6, 1e-6, -0.3, 0.3, 5.0)):
    direction = np.array([np.cos(k * np.pi / 12), np.sin(k * np.pi / 12)])
    a = np.array([[0.0, 0.0], [0.0, -30.0]])
    b = ((cutoff + gap) * direction)[None]
    got, counts = util.pure(ctx, 'naive', alignment.naive_merge, [a, b], cutoff)
    want = [b[0] / 2, a[1]] if gap < 0 else [a[0], a[1], b[0]]
    ctx.check(util.same(util.snap(np.array(want)), util.snap(got), 1e-9), 'naive:edge',
              f'{cutoff} {gap} {k}: {got}')
    ctx.check(counts.sum() == 3, 'naive:edge counts', f'{counts}')
    # The closer of two.
    a = np.array([[0.0, 0.0], 1.5 * cutoff * direction])
    for part in (0.3, 0.7, 0.95, 1.1):
      b = (part * cutoff * direction)[None]
      got, counts = util.pure(ctx, 'naive', alignment.naive_merge, [a, b], cutoff)
      near = 0 if part < 0.75 else 1
      want = a.copy()
      want[near] = (a[near] + b[0]) / 2
      ctx.check(util.same(util.snap(want), util.snap(got), 1e-9), 'naive:closest',
                f'{cutoff} {part} {k}: {got}')
    joined, counts = util.pure(ctx, 'cliques', alignment.clique_merge,
                               np.array([[0.0, 0.0], (cutoff + gap) * direction]), cutoff)
    ctx.check(len(joined) == (1 if gap < 0 else 2), 'cliques:edge', f'{cutoff} {gap} {joined}')
    ctx.state(cutoff, k, gap)
    ctx.step()
  ctx.trace()


def cliques(ctx, case):
  from putting_dune import alignment

  for rest in itertools.product(range(3), repeat=case['size'] - 1):
    word = (case['first'],) + rest
    for weights in (None, 'ones', 'given'):
      cutoff = CUTOFFS[len(word) % 2]
      p = np.array([np.array(SITES[s]) + np.array(JITTER[(i + s) % len(JITTER)]) * cutoff
                    for i, s in enumerate(word)])
      counts = {None: None, 'ones': np.ones(len(word)),
                'given': np.arange(len(word)) % 3 + 1.0}[weights]
      got, total = util.pure(ctx, 'cliques', alignment.clique_merge, p, cutoff, 100, counts)
      n = np.ones(len(word)) if counts is None else counts
      want = []
      for s in sorted(set(word)):
        mask = np.array(word) == s
        want.append((*np.average(p[mask], axis=0, weights=n[mask]), n[mask].sum()))
      found = sorted((*q, c) for q, c in zip(got, total))
      ctx.check(len(found) == len(want) and np.allclose(found, sorted(want)),
                'cliques:merged', f'{word} {weights}: {found} {sorted(want)}')
      ctx.state(word, weights)
      ctx.step()
  ctx.trace()


OLD = tuple(p for n in range(4) for p in itertools.permutations(range(3), n))
NEW = tuple(p for n in range(1, 4) for p in itertools.permutations(range(3), n))


def numbers(ctx, case):
  from putting_dune import alignment

  new = NEW[case['first']]
  for old in OLD:
    for silicon in range(-1, len(old)):
      for initial in (None, 'given'):
        for default in (6, 1):
          p = np.array([np.array(SITES[s]) + np.array(JITTER[(i + s) % len(JITTER)]) * 0.8
                        for i, s in enumerate(old)]).reshape(-1, 2)
          q = np.array([SITES[s] for s in new]).reshape(-1, 2)
          z = np.array([14 if i == silicon else 6 for i in range(len(old))], int)
          given = None if initial is None else np.arange(len(new)) + 20
          got = util.pure(ctx, 'numbers', alignment.propagate_atomic_numbers, p, q, z, given,
                          default)
          want = [z[old.index(s)] if s in old else (default if given is None else given[j])
                  for j, s in enumerate(new)]
          ctx.check(util.close(got, want), 'numbers:propagated',
                    f'{old} {new} {silicon} {initial} {default}: {got} {want}')
          ctx.check(np.asarray(got).dtype.kind == 'i', 'numbers:integer', f'{got.dtype}')
          ctx.state(old, new, silicon, initial, default)
          ctx.step()
  ctx.trace()


def threshold(ctx, case):
  from putting_dune import alignment

  for limit, k, gap in itertools.product((None, 0.3, 1.5), range(24), (-1e-6, 1e-6, -0.2, 0.2, 3)):
    reach = 0.8 if limit is None else limit
    direction = np.array([np.cos(k * np.pi / 12), np.sin(k * np.pi / 12)])
    old = np.array([[5.0, 5.0], [5.0, 5.0] + (reach + gap) * direction * 0 + [0, 20]])
    new = np.array([[5.0, 5.0] + (reach + gap) * direction, [5.0, 25.0], [50.0, 50.0]])
    more = {} if limit is None else {'threshold': limit}
    got = util.pure(ctx, 'numbers', alignment.propagate_atomic_numbers, old, new,
                    np.array([14, 7]), **more)
    ctx.check(util.close(got, [14 if gap < 0 else 6, 7, 6]), 'numbers:threshold',
              f'{limit} {gap}: {got}')
    ctx.state(limit, k, gap)
    ctx.step()
  ctx.trace()
