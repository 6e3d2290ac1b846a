"""C25: splits of a rate-learning dataset."""

import itertools

from mc import util

PROPERTY = 'C25'
LEVEL = 'model_checking'
RULE = (
    'every dataset size up to the bound and every key of a list, for'
    ' bootstrapping, splitting with every fraction of a list and splitting into'
    ' several datasets with and without augmentation; every row carries the'
    ' index of the transition it came from in each of its arrays. A state is'
    ' (function, size, key, parameters).'
)
ASSUMPTIONS = ['a context is given when several splits are made']

FRACTIONS = (0.0, 0.1, 0.25, 0.3, 0.5, 0.9)


def cases(tier):
  sizes = 12 if tier == 'quick' else 24
  keys = 24 if tier == 'quick' else 96
  for n in range(1, sizes + 1):
    for part in range(keys // 8):
      yield {'kind': 'bootstrap', 'n': n, 'keys': [8 * part, 8 * part + 8]}
  for n in range(1, sizes + 1):
    yield {'kind': 'split', 'n': n, 'keys': 6 if tier == 'quick' else 24}
  for n in ((3, 5, 8) if tier == 'quick' else range(2, 13)):
    for splits in (1, 2, 3):
      for mode in ('bootstrap', 'fraction', 'none'):
        yield {'kind': 'splits', 'n': n, 'splits': splits, 'mode': mode}
  yield {'kind': 'large'}


def run_case(ctx, case):
  globals()[case['kind']](ctx, case)


def build(n, library):
  """Row i holds i in every array."""
  import numpy as np

  i = np.arange(n)
  data = {
      'next_state': i % 4,
      'dt': i + 0.5,
      'position': np.stack([i * 1.0, 100.0 + i], 1),
      'context': np.stack([-1.0 * i, 5.0 + i, 60.0 + i], 1),
      'rates': np.stack([i * 1.0, i + 0.25, i + 0.5], 1),
  }
  if library:
    from jax import numpy as jnp
    return {k: jnp.asarray(v) for k, v in data.items()}
  return data


def identify(ctx, rows, n, sig):
  """The indices of the rows, which must be whole rows of the dataset."""
  import numpy as np

  ids = np.round(np.asarray(rows['rates'])[:, 0]).astype(int)
  full = build(n, False)
  ctx.check(set(rows) == set(full), sig + ':keys', f'{set(rows)}')
  for k, v in full.items():
    ctx.check(np.shape(rows[k]) == (len(ids),) + v.shape[1:] and
              (np.asarray(rows[k]) == v[ids]).all(), sig + ':row',
              lambda: f'{k}: {rows[k]}')
  return [int(i) for i in ids]


def check_bootstrap(ctx, n, key, library):
  import jax
  import numpy as np
  from putting_dune.rate_learning import data_utils

  data = build(n, library)
  before = util.snap(data)
  train, test = data_utils.bootstrap_dataset(data, jax.random.PRNGKey(key))
  ctx.check(util.same(before, util.snap(data)), 'modified', '')
  a = identify(ctx, train, n, 'bootstrap:train')
  b = identify(ctx, test, n, 'bootstrap:test')
  ctx.check(len(a) == n, 'bootstrap:size', f'{n} {key}: {a}')
  ctx.check(sorted(b) == sorted(set(range(n)) - set(a)), 'bootstrap:test',
            f'{n} {key}: {a} {b}')
  again, _ = data_utils.bootstrap_dataset(data, jax.random.PRNGKey(key))
  ctx.check((np.asarray(again['rates']) == np.asarray(train['rates'])).all(),
            'bootstrap:key', f'{n} {key}')
  ctx.step()
  ctx.state('bootstrap', n, key)
  return tuple(a)


def bootstrap(ctx, case):
  n = case['n']
  drawn = {check_bootstrap(ctx, n, key, key % 2 == 0) for key in range(*case['keys'])}
  ctx.check(n < 4 or len(drawn) > 1, 'bootstrap:constant', f'{n} {drawn}')
  # With replacement: not always a permutation.
  ctx.check(n < 6 or any(len(set(d)) < n for d in drawn), 'bootstrap:replacement', f'{drawn}')
  ctx.trace()


def split(ctx, case):
  import jax
  from putting_dune.rate_learning import data_utils

  n = case['n']
  for fraction in (None,) + FRACTIONS:
    drawn = set()
    for key in range(case['keys']):
      data = build(n, key % 2 == 0)
      args = () if fraction is None else (fraction,)
      train, test = util.pure(ctx, 'split:pure', data_utils.split_dataset, data,
                              jax.random.PRNGKey(key), *args)
      a = identify(ctx, train, n, 'split:train')
      b = identify(ctx, test, n, 'split:test')
      where = f'{n} {fraction} {key}: {a} {b}'
      ctx.check(sorted(a + b) == list(range(n)), 'split:partition', where)
      part = n * (0.1 if fraction is None else fraction)
      ctx.check(part - 1 + 1e-6 < len(b) <= part + 1e-6 or
                part - 1 - 1e-6 < len(b) < part, 'split:fraction', where)
      drawn.add(tuple(b + a))
      ctx.step()
      ctx.state('split', n, fraction, key)
    ctx.check(n < 5 or len(drawn) > 1, 'split:constant', f'{n} {drawn}')
  ctx.trace()


def splits(ctx, case):
  import jax
  import numpy as np
  from putting_dune.rate_learning import learn_rates

  n, k, mode = case['n'], case['splits'], case['mode']
  for key, augment in itertools.product(range(4), (False, True)):
    data = build(n, True)
    kwargs = {'bootstrap': mode == 'bootstrap', 'augment_data': augment,
              'test_fraction': {'bootstrap': 0.0, 'fraction': 0.4, 'none': 0.0}[mode]}
    before = util.snap(data)
    train, test = learn_rates.create_dataset_splits(
        data, k, jax.random.PRNGKey(key), **kwargs)
    where = f'{case} {key} {augment}'
    ctx.check(util.same(before, util.snap(data)), 'splits:modified', where)
    names = {'next_state', 'dt', 'rates', 'context'}
    ctx.check(set(train) == names == set(test), 'splits:keys', f'{where} {set(train)}')
    factor = 6 if augment else 1
    for i in range(k):
      ids = {}
      for part, name in ((train, 'train'), (test, 'test')):
        ctx.check(all(np.shape(part[x])[0] == k for x in names), 'splits:count', where)
        # The context that was given stays as it is; the position follows it.
        context = np.asarray(part['context'])[i]
        ctx.check(context.shape[1] == 5, 'splits:context', f'{where} {context.shape}')
        rows = np.round(-context[:, 0]).astype(int)
        ids[name] = [int(r) for r in rows]
        full = build(n, False)
        ctx.check((context[:, :3] == full['context'][rows]).all(), 'splits:row', where)
        dt = np.asarray(part['dt'])[i]
        ctx.check(dt.shape == rows.shape and (dt == full['dt'][rows]).all(),
                  'splits:row', where)
        radius = np.linalg.norm(full['position'][rows], axis=1)
        ctx.check(util.close(np.linalg.norm(context[:, 3:], axis=1), radius, 1e-2),
                  'splits:position', where)
        rates = np.asarray(part['rates'])[i]
        ctx.check(util.close(np.sort(rates, 1), np.sort(full['rates'][rows], 1), 1e-4),
                  'splits:rates', where)
        label = np.asarray(part['next_state'])[i]
        ctx.check(((label == 0) == (full['next_state'][rows] == 0)).all(),
                  'splits:label', where)
        if not augment:
          ctx.check(util.close(context[:, 3:], full['position'][rows]) and
                    (label == full['next_state'][rows]).all(), 'splits:plain', where)
        # The rate towards the destination is carried along with the label.
        moved = label > 0
        ctx.check(util.close(
            rates[moved, label[moved] - 1],
            full['rates'][rows[moved], full['next_state'][rows[moved]] - 1], 1e-4),
            'splits:label_rates', where)
      a, b = ids['train'], ids['test']
      where = f'{where} {i}: {a} {b}'
      if mode == 'none':
        ctx.check(sorted(a) == sorted(list(range(n)) * factor) == sorted(b),
                  'splits:all', where)
      else:
        ctx.check(not set(a) & set(b), 'splits:leak', where)
        if mode == 'bootstrap':
          ctx.check(len(a) == n * factor, 'splits:size', where)
        else:
          ctx.check(len(a) == (n - int(n * 0.4)) * factor and
                    len(b) == int(n * 0.4) * factor and
                    set(a) | set(b) == set(range(n)), 'splits:size', where)
    if mode == 'bootstrap' and k > 1 and n > 4:
      c = np.asarray(train['context'])
      ctx.check(not (c[0] == c[1]).all(), 'splits:same', where)
    ctx.step(k)
    ctx.state('splits', n, k, mode, key, augment)
  ctx.trace()


def large(ctx, case):
  for n in (100, 1000):
    for key in range(3):
      check_bootstrap(ctx, n, key, False)
  ctx.trace()
