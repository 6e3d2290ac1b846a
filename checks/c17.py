"""C17: storing and sampling mixture rate models."""

import itertools

PROPERTY = 'C17'
LEVEL = 'model_checking'
RULE = (
    'every combination of number of components, precision, kind of scalar, and'
    ' place (new, nested, existing or with an older model; text or path object)'
    ' is stored and loaded, in every order of two models sharing a place; every'
    ' seed up to the bound is sampled; all pairs of models that differ in one'
    ' parameter are compared. A state is (parameters, place) or a seed.'
)
ASSUMPTIONS = ['parameters are finite']


def cases(tier):
  for n in (1, 2, 3, 5):
    for dtype in ('float64', 'float32'):
      for scalar in ('float', 'float32', 'float64'):
        yield {'kind': 'store', 'n': n, 'dtype': dtype, 'scalar': scalar}
  for k in range(8 if tier == 'quick' else 40):
    yield {'kind': 'sample', 'first': 50 * k, 'count': 50}
  for n in (1, 2, 4):
    yield {'kind': 'equal', 'n': n}


def make(n, dtype, scalar, salt=0):
  import numpy as np
  from putting_dune import graphene

  k = np.arange(n) + 1.0 + salt
  rate = {'float': float, 'float32': np.float32, 'float64': np.float64}[scalar](
      0.37 + 0.1 * salt)
  return graphene.GaussianMixtureRateFunction(
      max_rate=rate,
      mixture_weights=(k / k.sum()).astype(dtype),
      loc_distances=(k / 3 - 1.1).astype(dtype),
      variances=np.stack([k / 7, 2 / k], axis=1).astype(dtype))


def fields(m):
  import numpy as np

  return [np.asarray(m.max_rate), np.asarray(m.mixture_weights),
          np.asarray(m.loc_distances), np.asarray(m.variances)]


def run_case(ctx, case):
  (globals()[case['kind']])(ctx, case)


def identical(a, b):
  import numpy as np

  return all(x.shape == y.shape and np.array_equal(x, y)
             for x, y in zip(fields(a), fields(b)))


def store(ctx, case):
  import os
  import pathlib
  from etils import epath
  import numpy as np
  from mc import boot, util
  from putting_dune import graphene

  folder = boot.scratch_dir('pdmc_c17_')
  cls = graphene.GaussianMixtureRateFunction
  honey = util.honeycomb(2, angle=0.4)
  g = util.grid(honey, [14] + [6] * (len(honey) - 1))
  a = make(case['n'], case['dtype'], case['scalar'])
  b = make(1 + case['n'] % 3, 'float64', 'float', salt=2)
  for p, (place, form) in enumerate(itertools.product(
      ('new', 'nested/deeper', 'again', 'with space'), (str, pathlib.Path, epath.Path))):
    path = form(os.path.join(folder, place))
    for order in ('a', 'ba', 'aba'):
      for name in order:
        (a if name == 'a' else b).serialize_to_directory(path)
      before = util.snap(fields(a))
      for _ in range(2):
        back = cls.deserialize_from_directory(path)
        where = f'{case} {place} {order}'
        ctx.check(isinstance(back, cls) and identical(a, back), 'round_trip',
                  lambda: f'{where} {a} {back}')
        ctx.check(back == a, 'round_trip:equality', where)
      ctx.check(util.same(before, util.snap(fields(a))), 'modified', where)
      if p == 0:
        for beam in ((0.0, 0.0), (0.9, 0.4), (-3.0, 1.0)):
          x = a(g, util.point(*beam)).successor_states
          y = back(g, util.point(*beam)).successor_states
          ctx.check([float(s.rate) for s in x] == [float(s.rate) for s in y],
                    'round_trip:rates', where)
      ctx.state(case['n'], case['dtype'], case['scalar'], p, order)
      ctx.step(len(order))
    # A copy of the stored model elsewhere is loaded from there.
  b.serialize_to_directory(os.path.join(folder, 'other'))
  ctx.check(identical(a, cls.deserialize_from_directory(os.path.join(folder, 'new'))),
            'places_mixed_up', f'{case}')
  ctx.check(util.raises(cls.deserialize_from_directory,
                        os.path.join(folder, 'missing')) is not None, 'missing', '')
  ctx.trace()
  ctx.outcome('store')
  del np


def sample(ctx, case):
  import numpy as np
  from putting_dune import graphene

  cls = graphene.GaussianMixtureRateFunction
  seen = set()
  for seed in range(case['first'], case['first'] + case['count']):
    m = cls.sample_new(np.random.default_rng(seed))
    again = cls.sample_new(np.random.default_rng(seed))
    ctx.check(identical(m, again), 'sample:not_repeatable', f'{seed}')
    rate, weights, distances, variances = fields(m)
    n = len(weights)
    ctx.check(n >= 1 and distances.shape == (n,) and variances.shape == (n, 2) and
              rate.shape == (), 'sample:shapes', f'{seed} {m}')
    ctx.check(0.01 <= rate <= 1.0, 'sample:max_rate', f'{seed} {rate}')
    ctx.check((weights >= 0).all() and abs(weights.sum() - 1) < 1e-9,
              'sample:weights', f'{seed} {weights}')
    ctx.check((distances >= -2).all() and (distances <= 3).all(), 'sample:distances',
              f'{seed} {distances}')
    ctx.check((variances >= 0.1).all() and (variances <= 5).all(), 'sample:variances',
              f'{seed} {variances}')
    seen.add((n, float(rate)))
    ctx.state('sample', seed)
    ctx.step()
  ctx.check(len(seen) == case['count'], 'sample:repeats', f'{case}')
  ctx.check(len({n for n, _ in seen}) > 2, 'sample:always_same_size', f'{case}')
  ctx.trace()
  ctx.outcome('sample')


def equal(ctx, case):
  import dataclasses
  import numpy as np

  m = make(case['n'], 'float64', 'float')
  for field in ('max_rate', 'mixture_weights', 'loc_distances', 'variances'):
    value = np.asarray(getattr(m, field), float)
    for index in np.ndindex(value.shape):
      for change, want in ((0.0, True), (1e-5, True), (-5e-4, True), (2e-3, False),
                           (-2e-3, False), (0.5, False)):
        v = value.copy()
        v[index] += change
        other = dataclasses.replace(m, **{field: v if v.shape else float(v)})
        ctx.check((m == other) is want or bool(m == other) == want, 'equality',
                  f'{case} {field} {index} {change}')
        ctx.check(bool(other == m) == want, 'equality:not_symmetric',
                  f'{case} {field} {index} {change}')
        ctx.state('equal', case['n'], field, index, change)
        ctx.step()
  for n in (1, 2, 3):
    if n != case['n']:
      ctx.check(not m == make(n, 'float64', 'float'), 'equality:size', f'{case} {n}')
  ctx.trace()
  ctx.outcome('equal')
