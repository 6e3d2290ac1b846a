"""C44: steps of training and evaluation of segmentation and alignment networks."""

import functools
import itertools

import numpy as np

from mc import stubs
from mc import util

PROPERTY = 'C44'
LEVEL = 'model_checking'
RULE = (
    'for each small shape of a batch every labelling of its pixels (nodes: every'
    ' padding), with several inputs, displacements and parameters, one step of'
    ' training and of evaluation; and every sequence of batches up to a depth'
    ' starting from the same state, with training and evaluation mixed. The state'
    ' is the parameters, the number of steps, and the metrics; the model is linear,'
    ' so that losses and their gradients are known in closed form.'
)
ASSUMPTIONS = [
    'float32 accuracy',
    'plain gradient descent as the optimizer',
    'labels are one-hot',
]

RATE = 0.5
LOCAL, GLOBAL = (3, 2)
METRICS = ('accuracy', 'loss', 'drift_loss', 'drift_error')
# Batch, height, width, frames, displacements.
SHAPES = ((1, 1, 1, 1, 1), (1, 1, 2, 1, 1), (2, 1, 1, 1, 1), (1, 1, 1, 2, 2), (1, 2, 1, 2, 2),
          (2, 1, 1, 2, 2), (1, 1, 1, 3, 3), (1, 1, 1, 3, 2), (2, 2, 1, 1, 1), (1, 2, 2, 1, 1))


def cases(tier):
  deep = tier != 'quick'
  for shape, final, weight in itertools.product(SHAPES, (True, False), (1.0, 0.25)):
    yield {'kind': 'alignment', 'shape': list(shape), 'final': final, 'weight': weight}
    yield {'kind': 'histories', 'shape': list(shape), 'final': final, 'weight': weight,
           'depth': 4 if deep else 3}
  for shape in SHAPES:
    if shape[3] == 1:
      yield {'kind': 'detection', 'shape': list(shape), 'depth': 4 if deep else 3}
  for batch, frames, nodes, start, weight in itertools.product(
      (1, 2), (2, 3), (1, 2, 3), (0, 1, 2), (1.0, 0.25)):
    if start < frames and batch * frames * nodes <= (18 if deep else 8):
      yield {'kind': 'graph', 'batch': batch, 'frames': frames, 'nodes': nodes, 'start': start,
             'weight': weight}


def run_case(ctx, case):
  stubs.grain()
  globals()[case['kind']](ctx, case)


# --- The oracle: in double precision, without jax. --------------------------


def softmax(z):
  e = np.exp(z - z.max(-1, keepdims=True))
  return e / e.sum(-1, keepdims=True)


class Segmentation:
  """Losses of a linear model, in closed form."""

  def __init__(self, params, batch, frames, displacements):
    self.x = x = np.asarray(batch['images'], float)
    self.mask = np.asarray(batch['mask'], float)
    z = x @ params['local']
    self.z = z.reshape(*z.shape[:-1], frames, 3)
    self.p = softmax(self.z)
    self.ce = -np.log((self.p * self.mask).sum(-1))
    self.right = self.z.argmax(-1) == self.mask.argmax(-1)
    if displacements:
      self.mean = x.mean((1, 2))
      self.drift = (self.mean @ params['global']).reshape(len(x), displacements, 2)
      self.error = self.drift - np.asarray(batch['drift'], float)

  def metrics(self, final):
    out = {}
    square = (self.error**2).sum(-1)
    norm = np.sqrt(square)
    for name, value in (('accuracy', self.right), ('loss', self.ce), ('drift_loss', square),
                        ('drift_error', norm)):
      out['final_step_' + name] = np.mean(value[..., -1])
      out[name] = np.mean(value[..., -1]) if final else np.mean(value)
    return out

  def gradients(self, final, weight):
    d = self.p - self.mask
    e = 2.0 * weight * self.error
    if final:
      d = d * (np.arange(d.shape[-2]) == d.shape[-2] - 1)[:, None]
      e = e * (np.arange(e.shape[-2]) == e.shape[-2] - 1)[:, None]
      d = d / self.ce[..., -1].size
      e = e / len(e)
    else:
      d = d / self.ce.size
      e = e / (e.shape[0] * e.shape[1])
    d = d.reshape(*d.shape[:-2], -1)
    return {
        'local': np.einsum('bhwc,bhwo->co', self.x, d),
        'global': np.einsum('bc,bo->co', self.mean, e.reshape(len(e), -1)),
    }


def update(params, gradients):
  return {k: params[k] - RATE * gradients[k] for k in params}


# --- Inputs -----------------------------------------------------------------


def params_of(i, frames, displacements):
  a = np.arange(2 * 3 * frames).reshape(2, -1) + i
  b = np.arange(2 * 2 * max(displacements, 1)).reshape(2, -1) + i
  return {'local': ((a * 7 % 11) - 5) / 4.0, 'global': ((b * 5 % 7) - 3) / 4.0}


def images_of(i, batch, height, width):
  a = np.arange(batch * height * width * 2).reshape(batch, height, width, 2) + 3 * i
  return ((a * 5 % 9) - 4) / 4.0


def drift_of(i, batch, displacements):
  a = np.arange(batch * displacements * 2).reshape(batch, displacements, 2) + i
  return ((a * 3 % 7) - 3) / 8.0 if i else np.zeros((batch, displacements, 2))


def masks_of(batch, height, width, frames):
  n = batch * height * width * frames
  for labels in itertools.product(range(3), repeat=n):
    yield np.eye(3)[np.array(labels).reshape(batch, height, width, frames)]


def to_jax(tree):
  import jax
  import jax.numpy as jnp

  return jax.tree_util.tree_map(lambda v: jnp.asarray(np.asarray(v, np.float32)), tree)


@functools.lru_cache(None)
def optimizer():
  import optax

  return optax.sgd(RATE)


def new_state(module, metrics, apply_fn, params):
  return module.TrainState.create(
      apply_fn=apply_fn, params=to_jax(params), tx=optimizer(), metrics=metrics.empty())


def compare(ctx, what, got, want, tolerance=2e-5):
  for name, value in want.items():
    have = np.asarray(got[name], float)
    ctx.check(have.shape == np.shape(value) and bool(
        np.all(np.abs(have - value) <= tolerance * (1 + np.abs(value)))), f'{what}:{name}',
        lambda: f'{name} is {have}, not {value}')


def check_state(ctx, what, state, params, steps, metrics):
  compare(ctx, what, state.params, params)
  ctx.check(int(state.step) == steps, f'{what}:step', f'{state.step} steps instead of {steps}')
  got = state.metrics.compute()
  if not ctx.check(set(got) == set(metrics), f'{what}:metrics', f'{sorted(got)}'):
    return
  compare(ctx, what, got, metrics)


# --- Alignment of images ----------------------------------------------------


@functools.lru_cache(None)
def alignment_steps(final, weight):
  import jax

  from putting_dune.image_alignment import train

  return (
      jax.jit(functools.partial(train.train_step, drift_loss_weight=weight, final_only=final)),
      jax.jit(functools.partial(train.eval_step, final_only=final)),
  )


def alignment_model(params, image):
  return image @ params['local'], image.mean((0, 1)) @ params['global']


def alignment(ctx, case):
  from putting_dune.image_alignment import train

  batch, height, width, frames, moves = case['shape']
  step, evaluate = alignment_steps(case['final'], case['weight'])
  for number, mask in enumerate(masks_of(batch, height, width, frames)):
    for i in range(2):
      params = params_of(2 * i, frames, moves)
      data = {'images': images_of(i + number % 3, batch, height, width), 'mask': mask,
              'drift': drift_of(i, batch, moves)}
      model = Segmentation(params, data, frames, moves)
      want = model.metrics(case['final'])
      state = new_state(train, train.Metrics, alignment_model, params)
      inputs = to_jax(data)
      after = update(params, model.gradients(case['final'], case['weight']))
      check_state(ctx, 'train', step(state, inputs), after, 1, want)
      check_state(ctx, 'eval', evaluate(state, inputs), params, 0, want)
      ctx.step(2)
      ctx.state('alignment', case['shape'], case['final'], case['weight'], number, i)
      ctx.trace()


def average(rows):
  return {k: float(np.mean([r[k] for r in rows])) for k in rows[0]}


def histories(ctx, case):
  """Sequences of steps: the metrics are the averages over the steps."""
  from putting_dune.image_alignment import train

  batch, height, width, frames, moves = case['shape']
  step, evaluate = alignment_steps(case['final'], case['weight'])
  masks = list(itertools.islice(masks_of(batch, height, width, frames), 0, None, 7))[:2]
  alphabet = [
      {'images': images_of(i, batch, height, width), 'mask': masks[i % len(masks)],
       'drift': drift_of(1 - i, batch, moves)} for i in range(2)
  ]
  first = params_of(1, frames, moves)
  for word in util.sequences([(t, b) for t in (True, False) for b in (0, 1)], case['depth'], 1):
    state = new_state(train, train.Metrics, alignment_model, first)
    params, steps, rows = first, 0, []
    for training, b in word:
      model = Segmentation(params, alphabet[b], frames, moves)
      rows.append(model.metrics(case['final']))
      if training:
        params = update(params, model.gradients(case['final'], case['weight']))
        steps += 1
      state = (step if training else evaluate)(state, to_jax(alphabet[b]))
      ctx.step()
    check_state(ctx, 'history', state, params, steps, average(rows))
    ctx.state('history', case['shape'], case['final'], case['weight'], word)
    ctx.trace()


# --- Detection of atoms -----------------------------------------------------


def detection_model(params, image):
  return image @ params['local']


def detection(ctx, case):
  from putting_dune.atom_detection import train

  batch, height, width, _, _ = case['shape']

  def model_of(params, data):
    model = Segmentation(params, data, 1, 0)
    d = (model.p - model.mask)[..., 0, :] / model.ce.size
    gradient = {'local': np.einsum('bhwc,bhwo->co', model.x, d)}
    return {'accuracy': np.mean(model.right), 'loss': np.mean(model.ce)}, gradient

  def inputs(data):
    return to_jax({'image': data['images'], 'mask': data['mask'][..., 0, :]})

  def start(params):
    return new_state(train, train.TrainMetrics, detection_model, params)

  alphabet = []
  for number, mask in enumerate(masks_of(batch, height, width, 1)):
    for i in range(2):
      params = {'local': params_of(2 * i, 1, 1)['local']}
      data = {'images': images_of(i + number % 3, batch, height, width), 'mask': mask}
      if number % 7 == 0 and i == 0 and len(alphabet) < 2:
        alphabet.append(data)
      want, gradient = model_of(params, data)
      check_state(ctx, 'train', train.train_step(start(params), inputs(data)),
                  update(params, gradient), 1, want)
      got = train.eval_step(train.EvalMetrics.empty(), inputs(data), state=start(params))
      compare(ctx, 'eval', got.compute(), {'accuracy': want['accuracy']})
      ctx.step(2)
      ctx.state('detection', case['shape'], number, i)
      ctx.trace()

  for word in util.sequences([(t, b) for t in (True, False) for b in (0, 1)], case['depth'], 1):
    params = {'local': params_of(1, 1, 1)['local']}
    state, steps, rows = start(params), 0, []
    metrics, rated = train.EvalMetrics.empty(), []
    for training, b in word:
      want, gradient = model_of(params, alphabet[b % len(alphabet)])
      data = inputs(alphabet[b % len(alphabet)])
      if training:
        state = train.train_step(state, data)
        params, steps = update(params, gradient), steps + 1
        rows.append(want)
      else:
        metrics = train.eval_step(metrics, data, state=state)
        rated.append({'accuracy': want['accuracy']})
      ctx.step()
    compare(ctx, 'history', state.params, params)
    ctx.check(int(state.step) == steps, 'history:step', f'{state.step} instead of {steps}')
    if rows:
      compare(ctx, 'history:train', state.metrics.compute(), average(rows))
    if rated:
      compare(ctx, 'history:eval', metrics.compute(), average(rated))
    ctx.state('detection history', case['shape'], word)
    ctx.trace()


# --- Alignment of graphs ----------------------------------------------------


@functools.lru_cache(None)
def neighbors_type():
  from flax import struct
  import jax

  @struct.dataclass
  class Neighbors:
    """A neighbour list that knows the positions it was last updated with."""
    total: jax.Array

    def update(self, positions):
      return Neighbors(positions.sum(0))

  return Neighbors


def graph(ctx, case):
  import jax.numpy as jnp

  from putting_dune.graph_alignment import train

  b, t, n = case['batch'], case['frames'], case['nodes']
  neighbors = neighbors_type()
  created = []

  def create(capacity, positions, update_fn, cell_capacity):
    created.append((capacity, update_fn, cell_capacity))
    return neighbors(jnp.zeros(3))

  def model(params, positions, neighbor, nodes):
    x = jnp.concatenate([positions, nodes, jnp.broadcast_to(neighbor.total, positions.shape)], -1)
    x = x.reshape(t, n, x.shape[-1])
    return x.mean(1) @ params['global'], x @ params['local']

  def design(data):
    p = data['positions'].reshape(b, t * n, 3)
    f = data['features'].reshape(b, t * n, -1)
    x = np.concatenate([p, f, np.broadcast_to(p.sum(1, keepdims=True), p.shape)], -1)
    return x.reshape(b, t, n, -1)

  def expected(params, data):
    x = design(data)
    local = x @ params['local']
    overall = x.mean(2) @ params['global']
    el = local - data['local_labels']
    eg = overall - data['global_labels']
    real = data['features'][..., 0]
    first = case['start']
    ll = np.array([[(real[i, j] * (el[i, j]**2).sum(-1)).sum() / n for j in range(first, t)]
                   for i in range(b)]).mean()
    lg = (eg[:, first:]**2).sum(-1).mean()
    metrics = {
        'global_loss': lg, 'local_loss': ll, 'total_loss': lg + case['weight'] * ll,
        'local_error': np.sqrt((el**2).sum(-1)).mean(),
        'global_error': np.sqrt((eg**2).sum(-1)).mean(),
    }
    counts = b * (t - first)
    dl = 2 * case['weight'] * el * real[..., None] / n / counts
    dg = 2 * eg / counts
    dl[:, :first] = 0
    dg[:, :first] = 0
    gradients = {
        'local': np.einsum('btnc,btno->co', x, dl),
        'global': np.einsum('btc,bto->co', x.mean(2), dg),
    }
    return metrics, gradients

  keep = train.graph_model.create_sparse_neighbor_list
  train.graph_model.create_sparse_neighbor_list = create
  token = object()
  try:
    step = functools.partial(
        train.train_step, apply_fn=model, neighbor_update_fn=(lambda *a: token),
        local_loss_weight=case['weight'], loss_start_timestep=case['start'],
        neighbor_list_capacity=17, cell_list_capacity=5)
    seen = []
    for number, real in enumerate(itertools.product((1.0, 0.0), repeat=b * t * n)):
      i = number % 3
      k = np.arange(b * t * n * 3).reshape(b, t, n, 3)
      data = {
          'positions': ((k + i) * 5 % 7 - 3) / 8.0,
          'features': np.stack([np.array(real).reshape(b, t, n),
                                np.arange(b * t * n).reshape(b, t, n) % 3 / 2.0], -1),
          'local_labels': (np.arange(b * t * n * 2).reshape(b, t, n, 2) * 3 % 5 - 2 + i) / 8.0,
          'global_labels': (np.arange(b * t * 2).reshape(b, t, 2) * 2 % 5 - 2 - i) / 8.0,
      }
      if len(seen) < 2 or number == 5:
        seen.append(data)
      c = np.arange(16).reshape(8, 2)
      params = {'local': ((c * 7 + i) % 5 - 2) / 8.0, 'global': ((c * 3 + i) % 7 - 3) / 8.0}
      metrics, gradients = expected(params, data)
      inputs = to_jax({**data, '_index': np.zeros(b)})
      state = new_state(train, train.Metrics, None, params)
      check_state(ctx, 'train', step(state, inputs), update(params, gradients), 1, metrics)
      check_state(ctx, 'eval', step(state, inputs, do_grad_step=False), params, 0, metrics)
      ctx.step(2)
      ctx.state('graph', b, t, n, case['start'], case['weight'], number)
      ctx.trace()
    ctx.check(all(c[0] == 17 and c[2] == 5 for c in created), 'neighbours', f'{created[:2]}')
    c = np.arange(16).reshape(8, 2)
    for word in util.sequences([(d, s) for d in (True, False) for s in range(2)], 3, 2):
      params = {'local': (c * 7 % 5 - 2) / 8.0, 'global': (c * 3 % 7 - 3) / 8.0}
      state, steps, rows = new_state(train, train.Metrics, None, params), 0, []
      for training, s in word:
        metrics, gradients = expected(params, seen[s])
        rows.append(metrics)
        state = step(state, to_jax(seen[s]), do_grad_step=training)
        if training:
          params, steps = update(params, gradients), steps + 1
        ctx.step()
      check_state(ctx, 'history', state, params, steps, average(rows))
      ctx.state('graph history', b, t, n, case['start'], case['weight'], word)
      ctx.trace()
  finally:
    train.graph_model.create_sparse_neighbor_list = keep
