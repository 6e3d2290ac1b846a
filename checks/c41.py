"""C41: synthetic rate-learning data."""

from mc import util

PROPERTY = 'C41'
LEVEL = 'model_checking'
RULE = (
    'for every seed of a range, size, width of the context, mode and range of'
    ' exposure times (none, short, long, never ending): every row of both'
    ' datasets is compared with the documented prior, computed with complex'
    ' numbers; labels that the rates or the exposure time leave no choice about'
    ' must be those. A state is (seed, row).'
)
ASSUMPTIONS = ['single precision: rates agree to five digits']


def cases(tier):
  for seed in range(5 if tier == 'quick' else 40):
    yield {'kind': 'prior', 'seed': seed}
  for seed in range(2 if tier == 'quick' else 10):
    yield {'kind': 'network', 'seed': seed}
  yield {'kind': 'modes'}


def run_case(ctx, case):
  globals()[case['kind']](ctx, case)


def check_shapes(ctx, data, n, width, times, where, states=3):
  import numpy as np

  shapes = {k: np.shape(v) for k, v in data.items()}
  ctx.check(shapes == {'next_state': (n, 1), 'dt': (n, 1), 'rates': (n, states),
                       'context': (n, width), 'position': (n, 2)}, 'shapes',
            f'{where}: {shapes}')
  dt = np.asarray(data['dt'])
  ctx.check((dt >= times[0]).all() and (dt <= times[1]).all(), 'times', where)
  s = np.asarray(data['next_state'])
  ctx.check(s.dtype.kind in 'iu' and (s >= 0).all() and (s <= states).all(), 'labels',
            f'{where} {s}')
  if times[1] == 0:
    ctx.check((s == 0).all(), 'labels:no_time', where)
  if times[0] >= 1e12:
    ctx.check((s > 0).all(), 'labels:endless', where)
  if times == (0, 5) and n > 100 and states == 3:
    ctx.check(0 < (s == 0).mean() < 1, 'labels:constant', where)


def prior(ctx, case):
  import numpy as np
  from putting_dune.rate_learning import data_utils

  unit = np.exp(-2j * np.pi * np.arange(3) / 3)
  for times in ((0, 0), (0, 5), (2, 3), (1e13, 2e13)):
    for n, width in ((400, 2), (7, 1)) if times == (0, 5) else (
        (400, 1),) if case['seed'] % 2 else ((300, 2),):
      kwargs = dict(num_data=n, data_seed=case['seed'], context_dim=width,
                    actual_time_range=times)
      got = data_utils.generate_synthetic_data(**kwargs)
      ctx.check(len(got) == 2, 'pair', '')
      for part, data in zip(('train', 'test'), got):
        where = f'{case} {times} {n} {part}'
        check_shapes(ctx, data, n, width, times, where)
        z = np.asarray(data['position'], float) @ [1, 1j]
        # Turn neighbour j, at an angle of 120 j degrees, to the right.
        rates = np.log(2) / 3 * np.exp(-np.abs(z[:, None] * unit - 0.85) ** 2 / 0.2)
        r = np.asarray(data['rates'], float)
        ctx.check(np.abs(np.log(np.maximum(r, 1e-30) / np.maximum(rates, 1e-30))
                         [rates > 1e-20]).max() < 2e-3 and np.abs(r - rates).max() < 1e-5,
                  'rates', lambda: f'{where}: {r} instead of {rates}')
        total = rates.sum(1)
        label = np.asarray(data['next_state'])[:, 0]
        certain = rates.max(1) / total > 1 - 1e-7
        moved = label > 0
        ctx.check((label[certain & moved] == rates.argmax(1)[certain & moved] + 1).all(),
                  'labels:certain', where)
        ctx.check(np.isin(label[moved], [1, 2, 3]).all(), 'labels:range', where)
        dt = np.asarray(data['dt'])[:, 0]
        ctx.check((label[total * dt > 60] > 0).all() and
                  (label[total * dt < 1e-12] == 0).all(), 'labels:time', where)
        if n > 100:
          side = np.round(np.angle(z) / (2 * np.pi / 3)) % 3
          ctx.check(len(set(side)) == 3, 'orientations', where)
        for i in range(min(n, 50)):
          ctx.state(case['seed'], times, n, part, i)
        ctx.step(n)
      a, b = got
      ctx.check(not np.array_equal(a['position'], b['position']), 'same_sets', f'{case}')
      if times != (0, 5) or n < 100:
        continue
      again = data_utils.generate_synthetic_data(**kwargs)
      ctx.check(util.same(util.snap(list(got)), util.snap(list(again))), 'seed', f'{case}')
      other = data_utils.generate_synthetic_data(**{**kwargs, 'data_seed': case['seed'] + 1})
      ctx.check(not np.array_equal(a['position'], other[0]['position']), 'seed:ignored',
                f'{case}')
  ctx.trace()


def network(ctx, case):
  import numpy as np
  from putting_dune.rate_learning import data_utils

  for times in ((0, 0), (0, 5), (1e13, 2e13)):
    for n, width, states in ((300, 2, 3), (30, 3, 4)) if times == (0, 5) else ((300, 1, 3),):
      kwargs = dict(num_data=n, data_seed=case['seed'], context_dim=width,
                    num_states=states, actual_time_range=times,
                    mode=data_utils.SyntheticDataType.NETWORK)
      got = data_utils.generate_synthetic_data(**kwargs)
      for data in got:
        where = f'{case} {times} {n}'
        check_shapes(ctx, data, n, width, times, where, states)
        r = np.asarray(data['rates'])
        ctx.check((r >= 0).all() and np.isfinite(r).all(), 'network:rates', where)
        ctx.step(n)
      ctx.state('network', case['seed'], times, n)
      if states == 3:
        continue
      again = data_utils.generate_synthetic_data(**kwargs)
      ctx.check(util.same(util.snap(list(got)), util.snap(list(again))), 'seed', f'{case}')
      # Rates are a function of position and context.
      a, b = got
      ctx.check(n == 1 or len(np.unique(np.asarray(a['rates'])[:, 0])) > 1,
                'network:constant', f'{case}')
  ctx.trace()


def modes(ctx, case):
  """Modes may be given by name, and the default is the prior."""
  from putting_dune.rate_learning import data_utils

  T = data_utils.SyntheticDataType
  for value in T:
    ctx.check(T(value.value) is value, 'modes', f'{value}')
    a = data_utils.generate_synthetic_data(num_data=5, data_seed=1, mode=value)
    b = data_utils.generate_synthetic_data(num_data=5, data_seed=1, mode=value.value)
    ctx.check(util.same(util.snap(list(a)), util.snap(list(b))), 'modes:name', f'{value}')
    ctx.step()
  a = data_utils.generate_synthetic_data(num_data=5, data_seed=1)
  b = data_utils.generate_synthetic_data(num_data=5, data_seed=1, mode=T.PRIOR)
  ctx.check(util.same(util.snap(list(a)), util.snap(list(b))), 'modes:default', '')
  ctx.state('modes')
  ctx.trace()
