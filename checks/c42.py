"""C42: the pipeline that learns rates from records."""

import contextlib
import io
import itertools
import math
import os

import numpy as np

from checks import c23
from checks import c34
from mc import boot
from mc import util

PROPERTY = 'C42'
LEVEL = 'exploration'
RULE = (
    'every kind of learner with every choice of context, way of splitting,'
    ' augmentation, distillation and output, on records of scenes whose'
    ' datapoints are known; training and distilling of networks replaced by'
    ' stand-ins that record what they are given and return given parameters;'
    ' every scene of a grid for the plots of transitions. A state is the'
    ' combination.'
)
ASSUMPTIONS = [
    'float32 accuracy',
    'the data of every split holds transitions of every label',
]

NETWORKS = ('rate_network', 'classification_network')
CLASSIFIERS = ('random_forest', 'svm', 'knn', 'gp', 'sklearn_mlp')
# bootstrap, augment, fraction for testing.
SPLITS = ((True, True, 0.0), (False, False, 0.0), (False, True, 0.25), (True, False, 0.0))


def cases(tier):
  deep = tier != 'quick'
  for learner, voltage, current, split, distill in itertools.product(
      NETWORKS, (True, False), (True, False), range(len(SPLITS)), (False, True)):
    if deep or distill or split in (1, 2):
      yield {'kind': 'network', 'learner': learner, 'voltage': voltage, 'current': current,
             'split': split, 'distill': distill}
  for learner, voltage, current, split in itertools.product(
      CLASSIFIERS, (True, False), (True, False), range(len(SPLITS))):
    if deep or split == (CLASSIFIERS.index(learner) + 2 * voltage + current) % len(SPLITS) or (
        learner == 'knn'):
      yield {'kind': 'classifier', 'learner': learner, 'voltage': voltage, 'current': current,
             'split': split}
  for move in c23.MOVES[:4]:
    yield {'kind': 'transitions', 'move': move}
  yield {'kind': 'map'}
  for first in range(4):
    yield {'kind': 'scatter', 'first': first, 'n': 3 if tier == 'quick' else 5}


def run_case(ctx, case):
  import matplotlib

  matplotlib.use('Agg')
  with contextlib.redirect_stdout(io.StringIO()):
    globals()[case['kind']](ctx, case)


def scenes(n=32):
  """Transitions with known datapoints, each with its own distance of the beam."""
  out = []
  for i in range(n):
    r = 0.3 + 0.05 * i
    a = 2.399 * i + 0.1
    s = c23.Scene(0.37 * i, (r * math.cos(a), r * math.sin(a)), c23.MOVES[i % 4],
                  c23.VIEWS[i % len(c23.VIEWS)], dwell=0.5 + (i * 7 % n) * 0.25,
                  current=0.1 + 0.01 * (i * 5 % n), voltage=60.0 + (i * 3 % n))
    if isinstance(s.expected(), dict):
      out.append(s)
  return out


_DATA = []


def data():
  """The scenes and a folder with their records, in two files."""
  if not _DATA:
    from etils import epath
    from putting_dune import io as pdio
    from putting_dune import microscope_utils as mu

    kept = scenes()
    trajectories = []
    for s in kept:
      t = s.transition
      trajectories.append(mu.Trajectory([
          util.observation(t.grid_before, t.fov_before, t.controls),
          util.observation(t.grid_after, t.fov_after)]))
    folder = boot.scratch_dir()
    half = len(kept) // 2
    pdio.write_records(epath.Path(folder) / 'a.tfrecords', trajectories[:half])
    pdio.write_records(epath.Path(folder) / 'b.tfrecords', trajectories[half:])
    order = list(range(len(kept)))
    _DATA.append((kept, folder, order))
  return _DATA[0]


def context_of(want, case, classify):
  out = [want['current']] if case['current'] else []
  out += [want['voltage']] if case['voltage'] else []
  return out + ([want['seconds_between']] if classify else [])


def orbit(z, label):
  """Position and label under the symmetries of the three neighbours."""
  w = complex(math.cos(2 * math.pi / 3), math.sin(2 * math.pi / 3))
  for p, l in ((z, label), (z.conjugate(), {0: 0, 1: 1, 2: 3, 3: 2}[label])):
    for k in range(3):
      yield p * w ** k, (l - 1 + k) % 3 + 1 if l else 0


def check_rows(ctx, case, rows, wanted, classify, augment, where):
  """Every row belongs to one datapoint; returns how often each is used."""
  counts = np.zeros(len(wanted), int)
  label, dt, context = (np.asarray(rows[k]) for k in ('next_state', 'dt', 'context'))
  ctx.check(context.shape == (len(label), len(context_of(wanted[0], case, classify)) + 2),
            'data:shape', lambda: f'{where}: {context.shape}')
  radii = np.array([abs(w['beam_pos']) for w in wanted])
  for i in range(len(label)):
    z = complex(*context[i, -2:].astype(float))
    j = int(np.argmin(np.abs(radii - abs(z))))
    want = wanted[j]
    counts[j] += 1
    images = list(orbit(want['beam_pos'], want['next_state']))
    if not augment:
      images = images[:1]
    near, expected = min(images, key=lambda p: abs(p[0] - z))
    ctx.check(abs(near - z) < 1e-4, 'data:position', lambda: f'{where}: {z} for {want}')
    ctx.check(int(label[i]) == expected, 'data:label', lambda: f'{where}: {label[i]} for {want}')
    ctx.check(abs(dt[i] - (1 if classify else want['seconds_between'])) < 1e-5, 'data:time',
              lambda: f'{where}: {dt[i]} for {want}')
    ctx.check(np.allclose(context[i, :-2], context_of(want, case, classify), rtol=1e-5),
              'data:context', lambda: f'{where}: {context[i]} for {want}')
    ctx.step()
  return counts


def check_splits(ctx, case, trains, tests, wanted, classify, models, where):
  bootstrap, augment, fraction = SPLITS[case['split']]
  n, times = len(wanted), 6 if augment else 1
  ctx.check(len(trains) == len(tests) == models, 'splits', where)
  for m, (train, test) in enumerate(zip(trains, tests)):
    a = check_rows(ctx, case, train, wanted, classify, augment, f'{where} train {m}')
    b = check_rows(ctx, case, test, wanted, classify, augment, f'{where} test {m}')
    ctx.check(not (a % times).any(), 'splits:orbit', lambda: f'{where}: {a}')
    if bootstrap:
      ctx.check(a.sum() == n * times and not ((a > 0) & (b > 0)).any() and b.sum() > 0,
                'splits:bootstrap', lambda: f'{where}: {a} {b}')
    elif fraction:
      k = int(n * fraction)
      ctx.check(a.max() == times and a.sum() == (n - k) * times and b.sum() == k * times
                and not ((a > 0) & (b > 0)).any(), 'splits:fraction', lambda: f'{where}: {a} {b}')
    else:
      ctx.check(bool((a == times).all() and (b == times).all()), 'splits:all',
                lambda: f'{where}: {a} {b}')


def wanted_data():
  kept, folder, _ = data()
  return [s.expected() for s in kept], folder


def arguments(case, folder, workdir, **more):
  from etils import epath
  from putting_dune.pipeline import train_rate_learner as trl

  bootstrap, augment, fraction = SPLITS[case['split']]
  return trl.Args(
      source_path=epath.Path(folder), workdir=epath.Path(workdir), learner_type=case['learner'],
      use_voltage=case['voltage'], use_current=case['current'], bootstrap=bootstrap,
      augment_data=augment, val_frac=fraction, num_models=2, epochs=3, batch_size=8,
      hidden_dimensions=(4,), **more)


@contextlib.contextmanager
def replaced(module, **attributes):
  saved = {k: getattr(module, k) for k in attributes}
  try:
    for k, v in attributes.items():
      setattr(module, k, v)
    yield
  finally:
    for k, v in saved.items():
      setattr(module, k, v)


def key_of(case):
  return tuple(case[k] for k in sorted(case))


def check_maps(ctx, maps, wanted, case, classify, expected, where):
  """Rates are shown for the highest, the lowest and the median context."""
  contexts = np.array([context_of(w, case, classify) for w in wanted])
  names = [os.path.basename(str(path)) for path, *_ in maps]
  ctx.check(sorted(names) == ['avg_context_rates.png', 'max_context_rates.png',
                              'min_context_rates.png'], 'maps', f'{where}: {names}')
  for name, (path, function, context) in zip(names, maps):
    if not contexts.shape[1]:
      ctx.check(context is None, 'maps:context', where)
      context = np.zeros(0)
    else:
      want = {'a': np.median, 'm': None}[name[0]] or {'max': np.max, 'min': np.min}[name[:3]]
      ctx.check(context is not None and np.allclose(context, want(contexts, axis=0), rtol=1e-5),
                'maps:context', lambda: f'{where} {name}: {context}')
    x = np.array([[*context, a, b] for a in (-1.0, 0.3) for b in (0.0, 0.8)], np.float32)
    got = np.asarray(function(x))
    ctx.check(got.shape == (4, 3) and np.allclose(got, expected(x), rtol=5e-4, atol=1e-5),
              'maps:rates', lambda: f'{where} {name}: {got} {expected(x)}')


def network(ctx, case):
  import jax
  import json
  import tensorflow as tf
  from putting_dune.pipeline import train_rate_learner as trl
  from putting_dune.rate_learning import learn_rates

  wanted, folder = wanted_data()
  classify = case['learner'] == 'classification_network'
  index = ctx_index(case)
  log, plots, maps = bool(index % 3), index % 4 == 0, index % 2 == 0
  where = f'{case}'
  calls, shown, made = {}, [], {}
  dims = len(context_of(wanted[0], case, classify))

  def train(train_datasets, test_datasets, key, num_models, optim, apply_fn, init_fn,
            train_config):
    calls['train'] = calls.get('train', 0) + 1
    check_splits(ctx, case, *[[{k: v[m] for k, v in d.items()} for m in range(len(d['dt']))]
                              for d in (train_datasets, test_datasets)],
                 wanted, classify, num_models, where)
    start = [init_fn(k, train_datasets['context'][0, :1]) for k in jax.random.split(key)]
    params = learn_rates.tree_stack([p for p, _ in start])
    state = learn_rates.tree_stack([s for _, s in start])
    made['params'] = c34.randomize(params, index)
    made['state'] = c34.random_state(state, index)
    made['metrics'] = {'train_loss': np.arange(1.0, 7.0).reshape(2, 3) + index,
                       'test_class_loss': np.arange(6.0, 0.0, -1.0).reshape(2, 3)}
    made['config'] = train_config
    return made['params'], made['state'], None, made['metrics']

  def distill(key, optim, apply_fn, init_fn, ensemble_params, ensemble_state, batch_size, epochs,
              batches_per_epoch, data_mean, data_scale):
    calls['distill'] = calls.get('distill', 0) + 1
    ctx.check(util.same(util.snap(jax.device_get(ensemble_params)),
                        util.snap(jax.device_get(made['params']))), 'distill:teachers')
    contexts = np.array([context_of(w, case, classify) for w in wanted])
    r = math.sqrt(np.mean([abs(w['beam_pos']) ** 2 for w in wanted]) / 2)
    ctx.check(np.allclose(data_mean, [*contexts.mean(0), 0, 0], atol=1e-4), 'distill:mean',
              f'{where}: {data_mean}')
    ctx.check(np.allclose(data_scale, [*contexts.std(0), r, r], rtol=1e-3), 'distill:scale',
              f'{where}: {data_scale}')
    params, state = init_fn(key, data_mean[None])
    params, state = c34.randomize(params, index + 7), c34.random_state(state, index + 7)
    made['params'], made['state'] = (
        jax.tree_util.tree_map(lambda v: v[None], t) for t in (params, state))
    return params, state, key, {'distill_loss': np.zeros(1)}

  def show(save_path, predict_rates, grid_range=1.5, num_points=40_000, fixed_context=None):
    shown.append((save_path, predict_rates, fixed_context))

  workdir = boot.scratch_dir()
  with replaced(learn_rates, train_multiple_models=train,
                distill_multiple_models_to_single=distill, visualize_rates=show), replaced(
                    trl, visualize_data=lambda *a, **k: None):
    trl.main(arguments(case, folder, workdir, distill=case['distill'], log_metrics=log,
                       plot_metrics=plots, visualize_rates=maps, batchnorm=index % 5 != 0))
    expected = lambda x: c34.evaluate(made['params'], made['state'], x)
    if maps:
      check_maps(ctx, shown, wanted, case, classify, expected, where)
    else:
      ctx.check(not shown, 'maps', where)
  ctx.check(calls == {'train': 1, **({'distill': 1} if case['distill'] else {})}, 'calls',
            f'{where}: {calls}')
  # What is stored.
  contexts = np.array([context_of(w, case, classify) for w in wanted])
  loaded = tf.saved_model.load(workdir)
  for x, y in itertools.product((-0.9, 0.0, 1.3), repeat=2):
    got = np.asarray(loaded(np.array([[x, y]], np.float32)))
    want = expected(np.array([[*np.median(contexts, 0), x, y]]))
    ctx.check(np.allclose(got, want, rtol=5e-4, atol=1e-5), 'stored:rates',
              lambda: f'{where}: {got} {want}')
    ctx.step()
  another = learn_rates.LearnedTransitionRatePredictor(
      init_key=jax.random.PRNGKey(9), config=made['config'])
  if case['distill']:
    another.params, another.state = (
        jax.tree_util.tree_map(lambda v: v[:1], t) for t in (another.params, another.state))
  another.load(workdir)
  x = np.array([[*contexts[0], 0.4, -0.7]], np.float32)
  ctx.check(np.allclose(another.apply_model(x), expected(x), rtol=5e-4, atol=1e-5),
            'stored:checkpoint', where)
  with open(os.path.join(workdir, 'config.json')) as f:
    config = json.load(f)
  ctx.check(all(config[k] == v for k, v in {
      'use_voltage': case['voltage'], 'use_current': case['current'], 'num_models': 2,
      'learner_type': case['learner'], 'epochs': 3}.items()), 'stored:config', f'{where}: {config}')
  check_metrics(ctx, workdir, made['metrics'] if log else None, where)
  for name in made['metrics']:
    ctx.check(os.path.exists(os.path.join(workdir, name + '.png')) == plots, 'metrics:plots',
              f'{where} {name}')
  ctx.check(dims + 2 == np.shape(next(iter(
      v for k, v in made['params'].items() if 'linear' in k))['w'])[1], 'inputs', where)
  import matplotlib.pyplot as plt

  plt.close('all')
  ctx.evaluated(key_of(case))
  ctx.state(key_of(case))


def check_metrics(ctx, workdir, metrics, where):
  path = os.path.join(workdir, 'metrics.npz')
  if not ctx.check(os.path.exists(path) == (metrics is not None), 'metrics', where):
    return
  if metrics is not None:
    with np.load(path) as got:
      ctx.check(set(got) == set(metrics) and all(
          np.allclose(np.ravel(got[k]), np.ravel(v)) for k, v in metrics.items()),
                'metrics', lambda: f'{where}: {dict(got)} {metrics}')


def ctx_index(case):
  """A small number that differs between neighbouring combinations."""
  return (NETWORKS + CLASSIFIERS).index(case['learner']) + 2 * case['voltage'] + 5 * case[
      'current'] + 3 * case['split'] + 7 * case.get('distill', 0)


def classifier(ctx, case):
  import joblib
  from putting_dune.pipeline import train_rate_learner as trl
  from putting_dune.rate_learning import learn_rates

  wanted, folder = wanted_data()
  index = ctx_index(case)
  log, maps = bool(index % 3), index % 2 == 0
  where = f'{case}'
  real = trl.train_sklearn_classifier
  seen, shown = [], []

  def train(model, training_data, testing_data):
    before = util.snap([training_data, testing_data])
    out = real(model, training_data, testing_data)
    ctx.check(util.same(before, util.snap([training_data, testing_data])), 'train:modified')
    seen.append((training_data, testing_data, out))
    fitted, *accuracies = out
    for d, got in zip((training_data, testing_data), accuracies):
      want = np.mean(fitted.predict(np.asarray(d['context'])) == np.asarray(d['next_state']))
      ctx.check(abs(want - got) < 1e-9, 'train:accuracy', f'{where}: {got} {want}')
    return out

  def show(save_path, predict_rates, grid_range=1.5, num_points=40_000, fixed_context=None):
    shown.append((save_path, predict_rates, fixed_context))

  workdir = boot.scratch_dir()
  with replaced(learn_rates, visualize_rates=show), replaced(
      trl, train_sklearn_classifier=train, visualize_data=lambda *a, **k: None):
    trl.main(arguments(case, folder, workdir, log_metrics=log, visualize_rates=maps))
  check_splits(ctx, case, [t for t, _, _ in seen], [t for _, t, _ in seen], wanted, True, 2, where)
  members = [joblib.load(os.path.join(workdir, f'{case["learner"]}_{i}.joblib')) for i in range(2)]
  ensemble = joblib.load(os.path.join(workdir, f'{case["learner"]}_ensemble.joblib'))
  mean = lambda x: np.mean([m.predict_proba(x) for m in members], 0)
  x = np.array([[*context_of(w, case, True), w['beam_pos'].real, w['beam_pos'].imag]
                for w in wanted[::4]], np.float32)
  for m, (_, _, (model, _, _)) in zip(members, seen):
    ctx.check(np.allclose(m.predict_proba(x), model.predict_proba(x)), 'stored:model', where)
  got = ensemble.predict_proba(x)
  ctx.check(got.shape == (len(x), 4) and np.allclose(got, mean(x)), 'stored:ensemble', where)
  ctx.check(np.allclose(got.sum(1), 1), 'stored:probabilities', f'{where}: {got}')
  if case['learner'] in ('random_forest', 'knn', 'gp', 'svm') and SPLITS[case['split']][1]:
    # Something was learned: better than always giving the same label.
    ctx.check(all(a > 0.26 for _, _, (_, a, _) in seen), 'learned', f'{where}')
  if maps:
    check_maps(ctx, shown, wanted, case, True, lambda x: mean(x)[:, 1:], where)
  else:
    ctx.check(not shown, 'maps', where)
  check_metrics(ctx, workdir, {
      'train_accuracy': [o[1] for _, _, o in seen], 'test_accuracy': [o[2] for _, _, o in seen],
  } if log else None, where)
  ctx.evaluated(key_of(case))
  ctx.state(key_of(case))


class Plots:
  """Stands in for pyplot and records what is drawn in which figure."""

  def __init__(self):
    self.figures, self.saved, self.shown, self.current = [], [], 0, None

  def figure(self, *unused, **kwargs):
    self.current = []
    self.figures.append(self.current)

  def scatter(self, x, y, **kwargs):
    self.current.append((np.ravel(x), np.ravel(y), kwargs))

  def imshow(self, image, **kwargs):
    self.current.append(np.array(image))

  def savefig(self, f, **kwargs):
    f.write(b'x')
    self.saved.append((getattr(f, 'name', None), self.current))

  def show(self):
    self.shown += 1

  def __getattr__(self, name):
    return lambda *a, **k: None


def transitions(ctx, case):
  """Plots of transitions, one for each that is kept, in the folder of its label."""
  import dataclasses
  from etils import epath
  from putting_dune.pipeline import train_rate_learner as trl

  for turn, (k, views), image, label in itertools.product(
      range(6 if not ctx.deep else 12), enumerate(c23.VIEWS), (None, 64, 100), (False, True)):
    made = []
    for j in range(3):
      a = 0.4 + 2.0 * j + turn
      s = c23.Scene(turn / 5, (0.8 * math.cos(a), 0.8 * math.sin(a)),
                    ('vanish' if j == 1 else case['move']), views, shift=(0.02 * j, 0.01),
                    orders=(c23.ORDERS[turn % 4], c23.ORDERS[j]))
      if s.expected() is not False:
        made.append(s)
    kept = [s for s in made if s.expected() is not None]
    pictures = {}
    if image:
      pictures['image_before'] = np.arange(image * image, dtype=float).reshape(image, image, 1)
    if label:
      pictures['label_image_before'] = np.full((8, 8), 3.0)
    given = [dataclasses.replace(s.transition, **pictures) for s in made]
    folder = boot.scratch_dir()
    plots = Plots()
    with replaced(trl, plt=plots):
      got = trl.transitions_to_datapoints(
          given, c23.arguments(), True, save_path=os.path.join(folder, 'plots'))
    ctx.check(len(got) == len(kept) and not plots.shown, 'plots:count', f'{case}')
    files = sorted(os.path.relpath(os.path.join(d, f), os.path.join(folder, 'plots'))
                   for d, _, names in os.walk(folder) for f in names)
    want = sorted(f'class_{s.expected()["next_state"]}/transition_{i + 1}_{kind}.png'
                  for i, s in enumerate(kept)
                  for kind in ('transition', 'label')[:2 if label else 1])
    ctx.check(files == want, 'plots:files', lambda: f'{case}: {files} {want}')
    size = image or 512
    figures = [f for f in plots.figures if any(isinstance(d, tuple) for d in f)]
    ctx.check(len(figures) == len(kept), 'plots:figures', f'{len(figures)}')
    for s, figure in zip(kept, figures):
      drawn = {d[2].get('label'): d for d in figure if isinstance(d, tuple)}

      def at(name, points):
        p = c23.in_view(np.reshape(points, (-1, 2)), views[0])
        x, y, _ = drawn[name]
        have = np.stack([x, y], -1)
        need = np.stack([p[:, 0] * size, size - p[:, 1] * size], -1)
        ok = have.shape == need.shape and bool(
            (np.abs(have[:, None] - need[None]).max(-1).min(1) < 1e-3).all())
        ctx.check(ok, 'plots:' + name.split()[0].lower(),
                  lambda: f'{case} {turn} {k} {name}: {have[:3]} {need[:3]}')

      want = s.expected()
      at('Atoms before transition', s.sheet)
      at('Atoms after transition', s.sheet + s.shift)
      at('Beam position', s.centre + s.beam)
      at('Si position (before)', s.centre)
      at('Si position (after)', (s.sheet + s.shift)[s.after == 14])
      beam = complex(*s.beam)
      nb = [complex(*(s.sheet[j] - s.centre)) for j in (1, 2, 3)]
      near = min(nb, key=lambda z: abs(beam - z))
      ccw = sorted(nb, key=lambda z: (np.angle(z / near) + 1e-6) % (2 * np.pi))
      for i, z in enumerate(ccw):
        at(f'Neighbor {i + 1}', s.centre + [z.real, z.imag])
        ctx.check((drawn[f'Neighbor {i + 1}'][2]['marker'] == 'x')
                  == (want['next_state'] == i + 1), 'plots:marker', f'{case} {i}')
      ctx.step()
    ctx.evaluated(case['move'], turn, k, image, label)
    ctx.state(case['move'], turn, k, image, label)


def map(ctx, case):  # pylint: disable=redefined-builtin
  """The map of rates asks for every point of the grid once, and gives the highest."""
  import matplotlib.pyplot as plt
  from putting_dune.rate_learning import learn_rates

  for points, reach, context, (cx, cy), save in itertools.product(
      (9, 25, 30, 101), (1.5, 10.0), (None, (0.5,), (0.1, 60.0, 2.0)), ((0.3, -0.6), (-1.0, 1.0)),
      (False, True)):
    asked = []

    def rates(x):
      asked.append(np.array(x))
      d = (x[:, -2] - cx) ** 2 + (x[:, -1] - cy) ** 2
      return np.stack([np.exp(-d), 2 * np.exp(-d / 4), 3 - 0.01 * d], -1)

    folder = boot.scratch_dir()
    path = os.path.join(folder, 'map.png') if save else None
    given = None if context is None else np.array(context)
    _, highest = learn_rates.visualize_rates(path, rates, reach, points, given)
    where = f'{points} {reach} {context} {cx} {save}'
    side = int(math.sqrt(points))
    line = np.linspace(-reach, reach, side)
    grid = np.array([[*(context or ()), x, y] for x in line for y in line])
    got = np.concatenate(asked)
    order = lambda a: a[np.lexsort(a.T[::-1])]
    ctx.check(got.shape == grid.shape and np.allclose(order(got), order(grid)), 'map:points',
              lambda: f'{where}: {got.shape} {grid.shape}')
    want = rates(grid).max(0)
    ctx.check(np.allclose(highest, want), 'map:highest', f'{where}: {highest} {want}')
    ctx.check(given is None or given.tolist() == list(context), 'map:modified', where)
    ctx.check(os.listdir(folder) == (['map.png'] if save else []), 'map:file', where)
    plt.close('all')
    ctx.evaluated(points, reach, context, cx, save)
    ctx.state(points, reach, context, cx, save)
    ctx.step()


SIDES = {'No movement': 0, 'Moved right': 1, 'Moved up-left': 2, 'Moved down-left': 3}


def scatter(ctx, case):
  """Every list of labels up to the length, and its augmentation, as it is plotted."""
  import matplotlib.pyplot as plt
  from putting_dune.pipeline import train_rate_learner as trl
  from putting_dune.rate_learning import data_utils

  places = np.array([(0.5, 0.25), (-1.5, 2.0), (4.0, -3.0), (6.0, 0.0), (0.5, 0.25)])
  dwells = np.array([1.5, 4.0, 0.5, 3.0, 2.0])
  for n in range(1, case['n'] + 1):
    for rest in itertools.product(range(4), repeat=n - 1):
      labels = (case['first'],) + rest
      points = [dict(beam_pos=places[i], next_state=np.int64(k), seconds_between=dwells[i],
                     current=0.1, voltage=60.0) for i, k in enumerate(labels)]
      stacked = trl.stack_data(points)
      sets = [('raw', stacked)]
      if n == case['n']:
        sets.append(('augmented', data_utils.augment_data(**stacked)))
      for name, given in sets:
        save = name == 'augmented' and labels == (case['first'],) * n
        folder = boot.scratch_dir()
        path = os.path.join(folder, 'data.png') if save else None
        before = util.snap({k: None if v is None else np.array(v) for k, v in given.items()})
        trl.visualize_data(given['next_state'], given['position'], given['dt'],
                           num_states=3, save_path=path)
        where = f'{name} {labels}'
        ctx.check(util.same(before, util.snap({
            k: None if v is None else np.array(v) for k, v in given.items()})),
                  'scatter:modified', where)
        ctx.check(os.listdir(folder) == (['data.png'] if save else []), 'scatter:file', where)
        states = np.array(given['next_state']).ravel()
        position = np.array(given['position'])
        dwell = np.array(given['dt']).ravel()
        seen = {}
        for c in plt.gca().collections:
          if c.get_label() in SIDES:
            seen[SIDES[c.get_label()]] = c
          elif c.get_label() == 'Silicon position':
            ctx.check(np.allclose(c.get_offsets(), 0), 'scatter:silicon', where)
        ctx.check(set(seen) == set(states.tolist()), 'scatter:labels', f'{where} {seen}')
        for k, c in seen.items():
          want = sorted((*p, a) for p, a in zip(
              position[states == k].tolist(), (dwell / dwell.max())[states == k]))
          alpha = np.broadcast_to(1.0 if c.get_alpha() is None else c.get_alpha(), len(want))
          got = sorted((*p, a) for p, a in zip(np.asarray(c.get_offsets()).tolist(), alpha))
          ctx.check(len(got) == len(want) and np.allclose(got, want, atol=1e-5),
                    'scatter:points', lambda: f'{where} {k}: {got} {want}')
        plt.close('all')
        ctx.evaluated('scatter', name, labels)
        ctx.state('scatter', name, labels)
        ctx.step()
