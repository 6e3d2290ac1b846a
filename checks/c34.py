"""C34: learned rate predictors."""

import cmath
import itertools
import math

import numpy as np

from mc import boot
from mc import util

PROPERTY = 'C34'
LEVEL = 'model_checking'
RULE = (
    'every sequence of training, distilling, saving, loading (in place and into'
    ' another predictor) and predicting up to the depth, training replaced by a'
    ' stand-in that returns given parameters, against an own evaluation of the'
    ' network; every scene of a grid for predictions; every combination of'
    ' transitions and rates for the loss; every size of data and batch for an'
    ' epoch; algebraic identities of distillation; a few real trainings. A'
    ' state is the sequence or combination.'
)
ASSUMPTIONS = [
    'float32 accuracy',
    'the neighbours of the silicon are equally far from it',
    'batches are not larger than the data',
]


def cases(tier):
  deep = tier != 'quick'
  for config in range(4):
    for first in OPERATIONS:
      for second in OPERATIONS:
        yield {'kind': 'lifecycle', 'config': config, 'first': first, 'second': second,
               'depth': (4 if config else 5) if deep else (3 if config else 4)}
  for config in range(4):
    for orientation in range(12 if deep else 6):
      yield {'kind': 'scenes', 'config': config, 'orientation': orientation}
  for rate in range(len(RATES)):
    yield {'kind': 'losses', 'rate': rate, 'most': 3 if deep else 2}
  for n in (1, 2, 3, 5, 8, 12, 13) + ((20, 31) if deep else ()):
    yield {'kind': 'epoch', 'n': n}
  for seed in range(8 if deep else 3):
    yield {'kind': 'distilling', 'seed': seed}
    yield {'kind': 'training', 'seed': seed}
  yield {'kind': 'fixed'}


def run_case(ctx, case):
  globals()[case['kind']](ctx, case)


CONFIGS = (
    {},
    {'use_voltage': False, 'use_current': False, 'batchnorm': False},
    {'use_current': False, 'num_models': 1},
    {'use_voltage': False, 'hidden_dimensions': (5, 3), 'num_models': 3},
)


def configuration(k, **more):
  from ml_collections import config_dict
  from putting_dune.rate_learning import learn_rates

  base = learn_rates.rate_learning_defaults.to_dict()
  base.update({'num_models': 2, 'hidden_dimensions': (4,), 'batch_size': 4, 'epochs': 2,
               **CONFIGS[k], **more})
  return config_dict.FrozenConfigDict(base)


def make(k, seed=0, **more):
  import jax
  from putting_dune.rate_learning import learn_rates

  return learn_rates.LearnedTransitionRatePredictor(
      init_key=jax.random.PRNGKey(seed), config=configuration(k, **more))


def randomize(tree, seed, scale=0.8):
  """Parameters of the same shape that depend on the seed."""
  import jax

  leaves, structure = jax.tree_util.tree_flatten(tree)
  rng = np.random.RandomState(seed)
  return jax.tree_util.tree_unflatten(
      structure, [jax.numpy.asarray(rng.normal(size=np.shape(v)) * scale, np.float32)
                  for v in leaves])


def random_state(tree, seed):
  """Running means and variances that depend on the seed."""
  import jax

  rng = np.random.RandomState(seed)
  out = {}
  for module, entries in tree.items():
    out[module] = {}
    for name, v in entries.items():
      if name == 'counter':
        out[module][name] = v
      elif 'var' in module:
        out[module][name] = jax.numpy.asarray(rng.uniform(0.3, 2.0, np.shape(v)), np.float32)
      else:
        out[module][name] = jax.numpy.asarray(rng.normal(size=np.shape(v)) * 0.5, np.float32)
  return out


def softmax(x):
  e = np.exp(x - x.max(-1, keepdims=True))
  return e / e.sum(-1, keepdims=True)


def evaluate(params, state, x):
  """The rates of the ensemble, computed from the parameters."""
  models = len(next(iter(next(iter(params.values())).values())))
  out = []
  for m in range(models):
    h = np.asarray(x, float)
    if 'batch_norm' in params:
      mean = np.asarray(state['batch_norm/~/mean_ema']['average'][m], float)
      var = np.asarray(state['batch_norm/~/var_ema']['average'][m], float)
      h = (h - mean) / np.sqrt(var + 1e-5)
      h = h * np.asarray(params['batch_norm']['scale'][m], float) + np.asarray(
          params['batch_norm']['offset'][m], float)
    layers = sorted(k for k in params if 'linear' in k)
    for i, name in enumerate(layers):
      h = h @ np.asarray(params[name]['w'][m], float) + np.asarray(params[name]['b'][m], float)
      if i + 1 < len(layers):
        h = h / (1 + np.exp(-h))
    h = np.logaddexp(0, h)
    out.append(softmax(h[..., :-1]) * h[..., -1:])
  return np.mean(out, 0)


def scene(angle, order, beam, centre=(3.0, -2.0), scale=1.42):
  """Silicon with three neighbours; the beam in bonds, relative to a neighbour."""
  nb = [cmath.rect(scale, angle + 2 * math.pi * j / 3) for j in range(3)]
  listed = [nb[j] for j in order]
  c = complex(*centre)
  positions = [c] + [c + z for z in listed] + [c + 20]
  grid = util.grid([[z.real, z.imag] for z in positions], [14, 6, 6, 6, 6])
  b = c + beam * cmath.exp(1j * angle) * 1.42
  near = min(listed, key=lambda z: abs(beam * cmath.exp(1j * angle) * 1.42 - z))
  inputs = beam * cmath.exp(1j * angle) / (near / abs(near))
  # Where in the counterclockwise order from the nearest one each is.
  rank = [int(round((cmath.phase(z / near) + 1e-6) % (2 * math.pi) / (2 * math.pi / 3))) % 3
          for z in listed]
  return grid, b, np.array(centre), inputs, rank


def predict(ctx, predictor, config, expected, sc, voltage=60.0, current=0.1, where=''):
  from putting_dune import geometry

  grid, beam, centre, inputs, rank = sc
  got = predictor.predict(grid, geometry.Point(beam.real, beam.imag), centre,
                          np.array([1, 2, 3]), voltage, current)
  context = [inputs.real, inputs.imag]
  if config.use_voltage:
    context = [voltage] + context
  if config.use_current:
    context = [current] + context
  want = expected(np.array([context]))[0][rank]
  ctx.check(np.shape(got) == (3,) and np.allclose(got, want, rtol=2e-4, atol=1e-5),
            'predict', lambda: f'{where}: {got} instead of {want}')
  ctx.check(bool((np.asarray(got) >= 0).all()), 'predict:negative', f'{got}')
  direct = np.asarray(predictor.apply_model(np.array([context], np.float32)))
  ctx.check(np.allclose(direct, expected(np.array([context])), rtol=2e-4, atol=1e-5),
            'apply', lambda: f'{where}: {direct}')
  return got


# T train, D distill, S save, L load the last save, N continue with a new
# predictor that loads it, P predict.
OPERATIONS = 'TDSLNP'


def lifecycle(ctx, case):
  import jax
  from putting_dune.rate_learning import learn_rates

  k = case['config']
  config = configuration(k)
  scenes = [scene(0.3, (0, 1, 2), 0.7 + 0.2j), scene(1.9, (2, 0, 1), -0.3 + 0.8j)]
  real = (learn_rates.train_multiple_models, learn_rates.distill_multiple_models_to_single)
  counter = [100 * k]

  def fake_train(train_datasets, test_datasets, key, num_models, optim, apply_fn, init_fn,
                 train_config):
    counter[0] += 1
    made['params'] = randomize(template[0], counter[0])
    made['state'] = random_state(template[1], counter[0])
    for d in (train_datasets, test_datasets):
      ctx.check(all(len(v) == num_models for v in d.values()), 'train:splits')
    return made['params'], made['state'], None, {'train_loss': 1.0}

  def fake_distill(key, optim, apply_fn, init_fn, ensemble_params, ensemble_state, **unused):
    ctx.check(util.same(util.snap(jax.device_get(ensemble_params)),
                        util.snap(jax.device_get(current['params']))), 'distill:teachers')
    ctx.check(util.same(util.snap(jax.device_get(ensemble_state)),
                        util.snap(jax.device_get(current['state']))), 'distill:teachers')
    counter[0] += 1
    single = jax.tree_util.tree_map(lambda v: v[0], (template[0], template[1]))
    made['params'] = randomize(single[0], counter[0])
    made['state'] = random_state(single[1], counter[0])
    return made['params'], made['state'], key, {'distill_loss': np.zeros(1)}

  try:
    learn_rates.train_multiple_models = fake_train
    learn_rates.distill_multiple_models_to_single = fake_distill
    original = make(k)
    template = (original.params, original.state)
    for rest in util.sequences(OPERATIONS, case['depth'] - 2, 0):
      word = case['first'] + case['second'] + ''.join(rest)
      # Loading needs something saved; nothing happens twice in a row.
      if any(word.find(c) >= 0 and (word.find('S') < 0 or word.find(c) < word.find('S'))
             for c in 'LN') or any(a == b for a, b in zip(word, word[1:])):
        continue
      made = {}
      predictor = make(k, seed=1)
      predictor.params, predictor.state = randomize(template[0], 5), random_state(template[1], 5)
      current = {'params': predictor.params, 'state': predictor.state}
      folder = boot.scratch_dir()
      saved = None
      for t, op in enumerate(word):
        where = f'{word} {t}'
        if op == 'T':
          data = dataset(9, 0, k)
          before = util.snap(jax.device_get(data))
          predictor.train(data, jax.random.PRNGKey(t), bootstrap=bool(t % 2))
          ctx.check(util.same(before, util.snap(jax.device_get(data))), 'train:modified')
          current = {'params': made['params'], 'state': made['state']}
        elif op == 'D':
          predictor.distill(dataset(9, 0, k))
          current = {n: jax.tree_util.tree_map(lambda v: v[None], made[n])
                     for n in ('params', 'state')}
        elif op == 'S':
          predictor.save(folder)
          saved = current
        elif op in 'LN':
          if op == 'N':
            predictor = make(k, seed=2 + t)
          predictor.load(folder)
          current = saved
          ctx.check(predictor.config.to_dict() == config.to_dict() or {
              a: list(b) if isinstance(b, tuple) else b for a, b in config.to_dict().items()
          } == {a: list(b) if isinstance(b, tuple) else b
                for a, b in predictor.config.to_dict().items()}, 'load:config',
                    f'{predictor.config}')
        if op == 'P' or t == len(word) - 1:
          for s in scenes:
            predict(ctx, predictor, config,
                    lambda x, c=current: evaluate(c['params'], c['state'], x), s, where=where)
        ctx.step()
      ctx.state(k, word)
      ctx.trace()
  finally:
    learn_rates.train_multiple_models, learn_rates.distill_multiple_models_to_single = real


def dataset(n, seed, k):
  """Random data with the context that a configuration uses, if any."""
  import jax

  config = configuration(k)
  dims = int(config.use_voltage) + int(config.use_current)

  r = np.random.RandomState(seed)
  out = {k: jax.numpy.asarray(v) for k, v in {
      'next_state': np.arange(n) % 4, 'dt': r.uniform(0.1, 3, n).astype(np.float32),
      'rates': np.zeros((n, 3), np.float32),
      'position': r.normal(size=(n, 2)).astype(np.float32),
      'context': r.uniform(0.5, 1.5, size=(n, 2)).astype(np.float32)[:, :dims]}.items()}
  if not dims:
    # There is nothing beside the position: no context, or none is mentioned.
    out['context'] = None
    if seed % 2:
      del out['context']
  return out


def scenes(ctx, case):
  """Predictions follow the scene, in the order in which neighbours are listed."""
  k = case['config']
  config = configuration(k)
  predictor = make(k)
  predictor.params = randomize(predictor.params, 3)
  predictor.state = random_state(predictor.state, 3)
  expected = lambda x: evaluate(predictor.params, predictor.state, x)
  angle = 0.1 + case['orientation'] * 2 * math.pi / (12 if ctx.deep else 6)
  for order in itertools.permutations(range(3)):
    for r in (0.2, 0.8, 1.0, 2.5):
      for j in range(7):
        beam = cmath.rect(r, 0.04 + 2 * math.pi * j / 7)
        for centre in ((0.0, 0.0), (-7.5, 30.0)):
          voltage, current = ((60.0, 0.1), (80.0, 0.05), (1.0, 2.0))[j % 3]
          s = scene(angle, order, beam, centre)
          before = util.snap(s[0])
          predict(ctx, predictor, config, expected, s, voltage, current,
                  f'{case} {order} {beam} {centre}')
          ctx.check(util.same(before, util.snap(s[0])), 'predict:modified')
          ctx.state(k, case['orientation'], order, r, j, centre)
          ctx.step()
  # Single models of the ensemble, and their mean.
  x = np.random.RandomState(0).normal(size=(5, predictor.context_dim)).astype(np.float32)
  each = [np.asarray(predictor.apply_model(x, model_index=m)) for m in range(config.num_models)]
  for m, got in enumerate(each):
    one = [{a: {b: v[m:m + 1] for b, v in c.items()} for a, c in tree.items()}
           for tree in (predictor.params, predictor.state)]
    ctx.check(np.allclose(got, evaluate(*one, x), rtol=2e-4, atol=1e-5), 'single', f'{k} {m}')
  ctx.check(np.allclose(np.mean(each, 0), predictor.apply_model(x), rtol=1e-4, atol=1e-6),
            'ensemble')
  ctx.trace()


RATES = ((0.5, 1.0, 2.0, 0.7), (3.0, 0.0, 0.1, 5.0), (0.0, 0.0, 0.0, 0.01), (4.0, 9.0, 1.0, 0.2))
TIMES = (0.05, 1.0, 4.0)


def losses(ctx, case):
  """The loss is the negative log likelihood of the transitions."""
  import jax.numpy as jnp
  from putting_dune.rate_learning import learn_rates

  options = list(itertools.product(range(4), TIMES, range(len(RATES))))
  for n in range(1, case['most'] + 1):
    if n == 3:
      words = itertools.product(*[[o for o in options if o[2] == case['rate']]] * 3)
    else:
      words = itertools.product([o for o in options if o[2] == case['rate']],
                                *[options[::3 if not ctx.deep else 1]] * (n - 1))
    for word in words:
      outputs = np.array([RATES[k] for *_, k in word], np.float32)
      state = np.array([s for s, *_ in word])
      time = np.array([t for _, t, _ in word], np.float32)
      for cw, rw, training in ((1.0, 1.0, True), (0.5, 2.0, False), (0.0, 1.0, True)):
        seen = []

        def network(params, network_state, key, context, is_training):
          seen.append((params, network_state, key, context, is_training))
          return jnp.asarray(outputs), 'new state'

        loss, (after, rates, rate_loss, class_loss) = learn_rates.batched_loss_fn(
            'params', 'state', network, jnp.asarray(state), jnp.asarray(time),
            jnp.asarray(state != 0), 'context', 'key', training, cw, rw)
        p = softmax(outputs[:, :-1].astype(float))
        total = outputs[:, -1].astype(float)
        want_rate = np.where(state != 0, -np.log1p(-np.exp(-total * time)), total * time)
        want_class = np.where(state != 0, -np.log(p[np.arange(n), state - 1]), 0)
        where = f'{word} {cw} {rw}'
        ctx.check(np.allclose(rate_loss, want_rate, rtol=2e-3, atol=1e-5), 'loss:time',
                  f'{where}: {rate_loss} {want_rate}')
        ctx.check(np.allclose(class_loss, want_class, rtol=1e-4, atol=1e-6), 'loss:state',
                  f'{where}: {class_loss} {want_class}')
        ctx.check(np.allclose(loss, np.mean(cw * want_class + rw * want_rate), rtol=2e-3,
                              atol=1e-5), 'loss', f'{where}: {loss}')
        ctx.check(np.allclose(rates, p * total[:, None], rtol=1e-5), 'loss:rates', where)
        ctx.check(after == 'new state', 'loss:network state', where)
        ctx.check(seen == [('params', 'state', 'key', 'context', training)], 'loss:network',
                  f'{seen}')
      ctx.state(word)
      ctx.step()
  ctx.trace()


def epoch(ctx, case):
  """An epoch uses every row at most once, and all that fill a batch."""
  import jax
  import jax.numpy as jnp
  import optax
  from putting_dune.rate_learning import learn_rates

  n = case['n']
  config = configuration(1)
  orders = set()
  for batch in sorted({1, 2, 3, 4, n} & set(range(1, n + 1))):
    for key in range(3 if not ctx.deep else 8):
      # Every row has its own parameter; a gradient reaches it when it is used.
      data = {'next_state': jnp.asarray(np.arange(n) % 3 + 1),
              'dt': jnp.asarray(np.arange(n) * 0.25 + 0.5, jnp.float32),
              'context': jnp.asarray(np.eye(n), jnp.float32)}
      params = jnp.ones((n,), jnp.float32)

      def network(params, state, key, context, is_training):
        # Rates depend on the parameter of the row and its label and time only.
        w = context @ params
        return jnp.stack([w, 2 * w, 3 * w, w], -1), state + jnp.sum(context, 0)

      def update(grad, state, params=None):
        used = jnp.abs(grad) > 1e-9
        return jnp.zeros_like(grad), (state[0] + used, state[1] + 1,
                                      state[2].at[state[1]].set(used))

      optim = optax.GradientTransformation(
          lambda p: None, update)
      start = (jnp.zeros(n), jnp.asarray(0), jnp.zeros((n // batch, n), bool))
      after, state, opt, new_key = learn_rates.train_epoch(
          params, jnp.zeros(n), start, optim, network, batch, jax.random.PRNGKey(key), data,
          config)
      where = f'{n} {batch} {key}'
      used = np.asarray(opt[0])
      ctx.check(int(opt[1]) == n // batch, 'epoch:batches', f'{where}: {opt[1]}')
      ctx.check(used.max() <= 1 and used.sum() == n // batch * batch, 'epoch:rows',
                f'{where}: {used}')
      ctx.check(bool((np.asarray(opt[2]).sum(1) == batch).all()), 'epoch:batch size', where)
      ctx.check(np.array_equal(np.asarray(state), used), 'epoch:state', f'{where}: {state}')
      ctx.check(np.array_equal(np.asarray(after), np.ones(n)), 'epoch:params', where)
      ctx.check(not np.array_equal(np.asarray(new_key), np.asarray(jax.random.PRNGKey(key))),
                'epoch:key', where)
      again = learn_rates.train_epoch(
          params, jnp.zeros(n), start, optim, network, batch, jax.random.PRNGKey(key), data,
          config)
      ctx.check(np.array_equal(np.asarray(again[2][2]), np.asarray(opt[2])), 'epoch:repeat', where)
      orders.add((batch, np.asarray(opt[2]).tobytes()))
      ctx.state(n, batch, key)
      ctx.step()
  ctx.check(n < 5 or len([o for o in orders if o[0] == 1]) > 1, 'epoch:shuffle')
  ctx.trace()


def distilling(ctx, case):
  """Distillation compares the student with the mean of the teachers' rates."""
  import jax
  from putting_dune.rate_learning import learn_rates

  key = jax.random.PRNGKey(case['seed'])
  predictor = make(1)
  mean, scale = np.array([0.3, -0.2], np.float32), np.array([1.5, 0.5], np.float32)
  single = jax.tree_util.tree_map(lambda v: v[0], (predictor.params, predictor.state))
  a, b, c = (randomize(single[0], 10 * case['seed'] + i) for i in range(3))
  state = single[1]

  def loss(student, *teachers, batch=64):
    value, _ = learn_rates.distill_loss(
        student, state, learn_rates.tree_stack(teachers),
        learn_rates.tree_stack([state] * len(teachers)), key, batch, predictor.apply_fn,
        mean, scale)
    return float(value)

  for p, q in itertools.permutations((a, b, c), 2):
    ctx.check(loss(p, p) < 1e-10 and loss(p, p, p) < 1e-10, 'distill:same')
    full = loss(p, q)
    ctx.check(full > 1e-5, 'distill:different', f'{full}')
    ctx.check(abs(loss(p, q, q) - full) < 1e-3 * full, 'distill:mean', f'{full}')
    ctx.check(abs(loss(p, p, q) - full / 4) < 1e-3 * full, 'distill:mean', f'{full}')
    ctx.check(abs(loss(p, p, q, q, q) - full * 9 / 16) < 1e-3 * full, 'distill:mean')
    ctx.check(abs(loss(p, q, batch=64) - loss(q, p, batch=64)) < 1e-3 * full,
              'distill:symmetric')
    ctx.step()
  # Against an own evaluation, data concentrated in one point.
  value, _ = learn_rates.distill_loss(
      a, state, learn_rates.tree_stack([b, c]), learn_rates.tree_stack([state] * 2), key, 16,
      predictor.apply_fn, mean, np.zeros(2, np.float32))
  stacked = lambda *trees: evaluate(
      {m: {n: np.stack([np.asarray(t[m][n]) for t in trees]) for n in trees[0][m]} for m in a},
      {}, mean[None])
  want = ((stacked(a) - stacked(b, c)) ** 2).sum()
  ctx.check(abs(float(value) - want) < 1e-4 * max(want, 1e-3), 'distill:value', f'{value} {want}')
  # A real distillation: one model, closer to the ensemble, and used from then on.
  if case['seed'] < 2:
    from ml_collections import config_dict

    predictor = make(1, learning_rate=1e-2, weight_decay=0.0)
    predictor.params = randomize(predictor.params, case['seed'])
    teacher = (predictor.params, predictor.state)
    data = dataset(40, case['seed'], 1)
    metrics = predictor.distill(data, config_dict.FrozenConfigDict(
        {'batch_size': 64, 'epochs': 30, 'batches_per_epoch': 10}))
    x = np.asarray(data['position'])
    target = evaluate(*teacher, x)
    got = np.asarray(predictor.apply_model(x))
    ctx.check(np.mean((got - target) ** 2) < 0.25 * target.var(0).sum() + 0.02, 'distill:learns',
              f'{np.mean((got - target) ** 2)} {target.var(0).sum()}')
    ctx.check(metrics['distill_loss'].shape == (30,)
              and metrics['distill_loss'][-1] < metrics['distill_loss'][0], 'distill:losses')
    predict(ctx, predictor, predictor.config,
            lambda x: evaluate(predictor.params, predictor.state, x), scene(0.3, (1, 0, 2), 0.5j))
  ctx.state(case['seed'])
  ctx.trace()


def training(ctx, case):
  """A real training changes the parameters and is what predictions are made from."""
  import jax

  k = case['seed'] % 4
  config = configuration(k)
  results = []
  for _ in range(2):
    predictor = make(k)
    start = jax.device_get(predictor.params)
    data = dataset(16, case['seed'], k)
    predict(ctx, predictor, config, lambda x: evaluate(predictor.params, predictor.state, x),
            scene(0.3, (0, 1, 2), 0.7))
    metrics = predictor.train(data, jax.random.PRNGKey(case['seed']), bootstrap=False)
    for name, v in metrics.items():
      ctx.check(np.shape(v) == (config.num_models, config.epochs)
                and bool(np.isfinite(v).all()), 'train:metrics', f'{name} {v}')
    ctx.check(not util.same(util.snap(start), util.snap(jax.device_get(predictor.params))),
              'train:unchanged')
    predict(ctx, predictor, config, lambda x: evaluate(predictor.params, predictor.state, x),
            scene(0.3, (0, 1, 2), 0.7))
    results.append(jax.device_get(predictor.params))
  ctx.check(util.same(util.snap(results[0]), util.snap(results[1]), 1e-5), 'train:seed')
  if config.num_models > 1:
    leaf = next(v for v in jax.tree_util.tree_leaves(results[0]) if v.std() > 0)
    ctx.check(not np.allclose(leaf[0], leaf[1]), 'train:models differ')
  # Data without noise is learned: at no time the silicon moves, then always.
  if case['seed'] == 0:
    predictor = make(1, epochs=60, learning_rate=3e-2, weight_decay=0.0, batch_size=16,
                     augment_data=False)
    n = 64
    r = np.random.RandomState(0)
    position = r.normal(size=(n, 2)).astype(np.float32)
    data = dataset(n, 0, 1)
    data['position'] = jax.numpy.asarray(position)
    data['next_state'] = jax.numpy.asarray(np.where(position[:, 0] > 0, 1, 0))
    data['dt'] = jax.numpy.ones(n)
    metrics = predictor.train(data, jax.random.PRNGKey(1), bootstrap=False)
    ctx.check(bool((metrics['train_loss'][:, -1] < 0.5 * metrics['train_loss'][:, 0]).all()),
              'train:learns', f'{metrics["train_loss"]}')
    got = np.asarray(predictor.apply_model(np.array([[1.5, 0.0], [-1.5, 0.0]], np.float32)))
    ctx.check(got[0].sum() > 3 * got[1].sum() and got[0].argmax() == 0, 'train:rates', f'{got}')
  ctx.state(case['seed'])
  ctx.step()
  ctx.trace()


def fixed(ctx, case):
  """A model saved with a fixed context uses it for every input."""
  import tensorflow as tf

  for k in (0, 2, 3):
    predictor = make(k)
    predictor.params = randomize(predictor.params, 4)
    predictor.state = random_state(predictor.state, 4)
    n = predictor.context_dim - 2
    for values in ((0.1, 60.0), (0.5, 1.5), (-1.0, 2.0)):
      context = np.array(values[:n], np.float32)
      folder = boot.scratch_dir()
      predictor.save(folder, fixed_context=context)
      loaded = tf.saved_model.load(folder)
      for x, y in itertools.product((-1.0, 0.0, 0.7), repeat=2):
        got = np.asarray(loaded(np.array([[x, y]], np.float32)))
        want = evaluate(predictor.params, predictor.state, np.array([[*context, x, y]]))
        ctx.check(np.allclose(got, want, rtol=2e-4, atol=1e-5), 'fixed', f'{got} {want}')
        ctx.step()
      ctx.state(k, values)
  ctx.trace()
