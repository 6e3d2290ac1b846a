"""C48: training over epochs, with checkpoints, through crashes."""

import contextlib
import functools
import io
import itertools
import types

import numpy as np

from checks import c44
from mc import stubs

PROPERTY = 'C48'
LEVEL = 'fault_enumeration'
RULE = (
    'for each trainer and number of epochs, steps and size of batches: a crash'
    ' before and after every save, and at every batch, each followed by a second'
    ' one at every save (or none), and by a run to the end; and every key of a'
    ' network up to a length. A state is the history of crashes.'
)
ASSUMPTIONS = [
    'checkpoints are kept by a stand-in which follows the documentation of orbax:'
    ' a save is atomic, skipped if not newer than the latest; the installed orbax'
    ' and writers of metrics do not fit the installed jax',
    'linear models in the place of the networks; records from a stand-in for grain,'
    ' which begin anew when a process begins',
    'float32 accuracy',
]

# Examples per epoch of training and evaluation, and of a batch.
SIZES = ((4, 2, 2), (5, 3, 2), (6, 6, 1), (3, 6, 3))
KINDS = ('image', 'image frames', 'detector', 'graph')


def cases(tier):
  deep = tier != 'quick'
  for kind, epochs, size in itertools.product(KINDS, (1, 2, 3), range(len(SIZES))):
    if deep or epochs + size < 4:
      for first in itertools.chain(
          [None], itertools.product(('before', 'after'), range(epochs + 1))):
        yield {'kind': 'crashes', 'trainer': kind, 'epochs': epochs, 'size': size,
               'first': first}
      train, test, batch = SIZES[size]
      batches = epochs * (train // batch + test // batch)
      for at in range(batches):
        if deep or (at + size + epochs) % 2 == 0:
          yield {'kind': 'crashes', 'trainer': kind, 'epochs': epochs, 'size': size,
                 'first': ('batch', at)}
  yield {'kind': 'keys'}


def run_case(ctx, case):
  stubs.grain()
  out = io.StringIO()
  with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
    globals()[case['kind']](ctx, case)


# --- The trainers with their stand-ins --------------------------------------

NUMBER = 6  # Of records.


def segmentation_records(frames, moves, image):
  labels = np.array([0, 6, 14], np.uint8)
  out = []
  for i in range(NUMBER):
    k = np.arange(frames * 4).reshape(frames, 2, 2, 1)
    record = {
        image: ((k * 37 + 50 * i) % 256).astype(np.uint8),
        'mask': labels[(k * 5 + i * 2 + k // 3) % 3],
    }
    if moves:
      record['drift'] = ((np.arange(moves * 2).reshape(moves, 2) * 3 + i) % 5 / 4 - 0.5).astype(
          np.float32)
    else:
      record = {k: v[0] for k, v in record.items()}
    out.append(record)
  return out


def pattern(shape, scale=4.0):
  k = np.arange(int(np.prod(shape))).reshape(shape)
  return ((k * 7 % 11) - 5) / scale


def initial(key, shape, dtype=np.float32):
  import jax.numpy as jnp

  return jnp.asarray(pattern(shape), dtype)


@functools.lru_cache(None)
def networks():
  from flax import linen as nn

  class Both(nn.Module):
    local_output_size: int
    global_output_size: int

    @nn.compact
    def __call__(self, x):
      dense = functools.partial(nn.Dense, use_bias=False, kernel_init=initial)
      return (dense(self.local_output_size, name='local')(x),
              dense(self.global_output_size, name='global')(x.mean((0, 1))))

  class Local(nn.Module):

    @nn.compact
    def __call__(self, x):
      # Images of the detector are not scaled.
      return nn.Dense(3, use_bias=False, kernel_init=initial, name='local')(x / 255.0)

  return Both, Local


class Trainer:
  """One of the trainers of the repository."""

  def __init__(self, kind):
    self.kind = kind
    both, local = networks()
    if kind.startswith('image'):
      from putting_dune.image_alignment import train

      # The last frame only, or all frames.
      self.final = kind == 'image'
      self.frames = 2
      moves = 1 if self.final else self.frames - 1
      self.shown = 1 if self.final else self.frames
      self.moves = moves
      self.patches = [(train.unet, 'GlobalLocalUNet', both)]
      self.records = segmentation_records(self.frames, self.frames if self.final else moves, 'images')
      self.options = {'final_step_only': self.final, 'image_size': 2, 'drift_loss_weight': 0.5}
      self.shapes = {'local': (self.frames, 3 * self.shown), 'global': (self.frames, 2 * moves)}
      self.best = 'eval/accuracy'
    elif kind == 'detector':
      from putting_dune.atom_detection import train

      self.final = True
      self.patches = [(train.unet, 'UNet', local)]
      self.records = segmentation_records(1, 0, 'image')
      self.options = {}
      self.shapes = {'local': (1, 3)}
      self.best = 'eval/accuracy'
    else:
      from putting_dune.graph_alignment import train

      self.patches = [
          (train.graph_model, 'graph_network_neighbor_list', self.network),
          (train.graph_model, 'create_sparse_neighbor_list', self.neighbors),
      ]
      self.records = []
      for i in range(NUMBER):
        k = np.arange(12).reshape(2, 2, 3)
        self.records.append({
            'positions': ((k * 5 + i) % 7 - 3).astype(np.float32) / 8,
            'features': ((k[..., :2] + i) % 3 > 0).astype(np.float32),
            'local_labels': ((k[..., :2] * 3 + i) % 5 - 2).astype(np.float32) / 8,
            'global_labels': ((k[:, 0, :2] + 2 * i) % 5 - 2).astype(np.float32) / 8,
        })
      self.options = {'neighbor_capacity': 7}
      self.shapes = {'local': (5, 2), 'global': (5, 2)}
      self.best = 'eval/total_loss'
    self.train = train
    self.disk = stubs.Disk()
    self.writer = stubs.Writer()
    self.managers = []

  # The network of graphs, with keys like those of haiku.
  def network(self, *unused, **unused2):
    import jax.numpy as jnp

    def init(key, positions, neighbors, features):
      return {'net/~/local': {'w': initial(key, (5, 2))}, 'net/~/global': {'w': initial(key, (5, 2))}}

    def apply(params, positions, neighbors, nodes):
      x = jnp.concatenate([positions, nodes], -1).reshape(2, 2, 5)
      return x.mean(1) @ params['net/~/global']['w'], x @ params['net/~/local']['w']

    return types.SimpleNamespace(update=None, allocate=None), init, apply

  def neighbors(self, capacity, positions, *unused):
    import jax.numpy as jnp

    return c44.neighbors_type()(jnp.zeros(3))

  def manager(self, *args, **kwargs):
    manager = self.disk.manager(*args, **kwargs)
    self.managers.append(manager)
    return manager

  def run(self, size, epochs):
    """Runs the trainer until its end or a crash; returns the final state or None."""
    from etils import epath

    train_steps, eval_steps, batch = SIZES[size]
    patches = self.patches + [
        (self.train.checkpoint, 'CheckpointManager', self.manager),
        (self.train.metric_writers, 'create_default_writer', lambda **k: self.writer),
    ]
    kept = [(o, n, getattr(o, n)) for o, n, _ in patches]
    if self.kind == 'graph':
      kept.append((self.train, 'train_step', self.train.train_step))
    # The evaluation sees the records in another order.
    stubs.GRAIN.source = lambda name, split: (
        self.records if split == 'train' else self.records[::-1])
    for o, n, v in patches:
      setattr(o, n, v)
    where = epath.Path('/nowhere')
    try:
      return self.train.train(self.train.Config(
          workdir=where, data_dir=where, seed=3, train_steps_per_epoch=train_steps,
          eval_steps_per_epoch=eval_steps, batch_size=batch, epochs=epochs,
          learning_rate=0.05, **self.options))
    except stubs.Crash:
      return None
    finally:
      for o, n, v in kept:
        setattr(o, n, v)

  # --- The oracle ---

  def losses(self, params, rows):
    """Metrics and gradients of a batch of records."""
    if self.kind.startswith('image'):
      names = {0: 0, 6: 1, 14: 2}
      images = np.stack([r['images'][..., 0].transpose(1, 2, 0) for r in rows]) / 255.0
      mask = np.stack([r['mask'][..., 0].transpose(1, 2, 0) for r in rows])
      mask = np.eye(3)[np.vectorize(names.get)(mask[..., -self.shown:])]
      drift = np.stack([r['drift'][-self.moves:] for r in rows])
      model = c44.Segmentation(params, {'images': images, 'mask': mask, 'drift': drift},
                               self.shown, self.moves)
      return model.metrics(self.final), model.gradients(self.final, 0.5)
    if self.kind == 'detector':
      names = {0: 0, 6: 1, 14: 2}
      images = np.stack([r['image'] for r in rows]) / 255.0
      mask = np.eye(3)[np.vectorize(names.get)(np.stack([r['mask'] for r in rows]))]
      model = c44.Segmentation(params, {'images': images, 'mask': mask}, 1, 0)
      d = (model.p - model.mask)[..., 0, :] / model.ce.size
      return ({'accuracy': np.mean(model.right), 'loss': np.mean(model.ce)},
              {'local': np.einsum('bhwc,bhwo->co', images, d)})
    x = np.stack([np.concatenate([r['positions'], r['features']], -1) for r in rows]).astype(float)
    el = x @ params['local'] - np.stack([r['local_labels'] for r in rows])
    eg = x.mean(2) @ params['global'] - np.stack([r['global_labels'] for r in rows])
    real = x[..., 3]
    ll = (real * (el**2).sum(-1)).mean(2)[:, 1:].mean()
    lg = (eg**2).sum(-1)[:, 1:].mean()
    metrics = {'total_loss': ll + lg, 'local_loss': ll, 'global_loss': lg,
               'local_error': np.sqrt((el**2).sum(-1)).mean(),
               'global_error': np.sqrt((eg**2).sum(-1)).mean()}
    dl = 2 * el * real[..., None] / 2 / len(rows)
    dg = 2 * eg / len(rows)
    dl[:, 0] = dg[:, 0] = 0
    return metrics, {'local': np.einsum('btnc,btno->co', x, dl),
                     'global': np.einsum('btc,bto->co', x.mean(2), dg)}

  def params_of(self, saved):
    """The parameters in a checkpoint, and the keys they are under."""
    params = saved['params']
    if self.kind == 'graph':
      return {k.rsplit('dummy_slash', 1)[-1]: v['w'] for k, v in params.items()}
    return {k: v['kernel'] for k, v in params['params'].items()}


class Oracle:
  """What training should do, with crashes."""

  def __init__(self, trainer, size, epochs):
    self.trainer = trainer
    self.train_steps, self.eval_steps, self.batch = SIZES[size]
    self.epochs = epochs
    self.per_epoch = self.train_steps // self.batch
    self.saved = {}
    self.written = []

  def optimizer(self):
    import optax

    warm = self.per_epoch // 5
    return optax.adamw(optax.warmup_cosine_decay_schedule(
        init_value=0.0, peak_value=0.05, warmup_steps=warm,
        decay_steps=self.epochs * self.per_epoch - warm))

  def batches(self, reverse):
    rows = self.trainer.records[::-1] if reverse else self.trainer.records
    endless = itertools.cycle(rows)
    while True:
      yield list(itertools.islice(endless, self.batch))

  def run(self, crash):
    """One process: crash is ('batch', i), ('before', save), ('after', save) or None."""
    import optax

    tx = self.optimizer()
    shapes = self.trainer.shapes
    params = {k: pattern(v) for k, v in shapes.items()}
    opt = tx.init(c44.to_jax(params))
    steps, first = 0, 0
    if self.saved:
      first = max(self.saved) + 1
      params, opt, steps, _ = self.saved[first - 1]
    train, test = self.batches(False), self.batches(True)
    taken, saves = 0, 0

    def crashes(kind, n):
      return crash is not None and tuple(crash) == (kind, n)

    def save(step, metrics):
      nonlocal saves
      if crashes('before', saves):
        return False
      if step not in self.saved:
        self.saved[step] = (params, opt, steps, metrics)
      saves += 1
      return not crashes('after', saves - 1)

    for epoch in range(first, self.epochs):
      rows, rated = [], []
      for _ in range(self.per_epoch):
        if crashes('batch', taken):
          return False
        taken += 1
        metrics, gradients = self.trainer.losses(params, next(train))
        rows.append(metrics)
        updates, opt = tx.update(c44.to_jax(gradients), opt, c44.to_jax(params))
        params = {k: np.asarray(v, float) for k, v in optax.apply_updates(
            c44.to_jax(params), updates).items()}
        steps += 1
      for _ in range(self.eval_steps // self.batch):
        if crashes('batch', taken):
          return False
        taken += 1
        rated.append(self.trainer.losses(params, next(test))[0])
      metrics = {'train/' + k: v for k, v in c44.average(rows).items()}
      rated = c44.average(rated)
      if self.trainer.kind == 'detector':
        rated = {'accuracy': rated['accuracy']}
      metrics.update({'eval/' + k: v for k, v in rated.items()})
      if not save(epoch, metrics):
        return False
      self.written.append((epoch, metrics))
    if not save(self.epochs, None):
      return False
    self.final = params, steps
    return True


def crashes(ctx, case):
  """A first crash, a second one at each save, and the run to the end."""
  first = case['first']
  seconds = [None]
  if first is not None:
    seconds += list(itertools.product(('before', 'after'), range(case['epochs'] + 1)))
    if not ctx.deep:
      seconds = seconds[:: 2 if case['epochs'] < 3 else 3]
  for second in seconds:
    trainer = Trainer(case['trainer'])
    oracle = Oracle(trainer, case['size'], case['epochs'])
    where = f'{case} {second}'
    state = None
    for crash in [c for c in (first, second) if c is not None] + [None]:
      # The first batch of images and graphs is also taken to initialise the network.
      stubs.GRAIN.taken.clear()
      stubs.GRAIN.crash_at = None
      trainer.disk.log.clear()
      trainer.disk.crash_before = trainer.disk.crash_after = None
      if crash is not None and crash[0] == 'batch':
        stubs.GRAIN.crash_at = crash[1] + (trainer.kind != 'detector')
      elif crash is not None:
        setattr(trainer.disk, 'crash_' + crash[0], crash[1])
      state = trainer.run(case['size'], case['epochs'])
      ended = oracle.run(crash)
      ctx.check((state is not None) == ended, 'ends', f'{where}: at {crash}')
      compare(ctx, trainer, oracle, where)
      ctx.evaluated('run', trainer.kind, case['epochs'], case['size'], first, second, crash)
    params, steps = oracle.final
    got = trainer.params_of(stubs.tree_copy(
        trainer.train.sanitize_state_keys(state) if trainer.kind == 'graph' else state))
    c44.compare(ctx, 'final', got, params, 1e-4)
    ctx.check(int(state.step) == steps == case['epochs'] * oracle.per_epoch, 'steps',
              f'{where}: {state.step}')


def compare(ctx, trainer, oracle, where):
  saved = next(iter(trainer.disk.saved.values()))
  ctx.check(len(trainer.disk.saved) == 1 and sorted(saved) == sorted(oracle.saved), 'saved',
            f'{where}: {sorted(saved)} instead of {sorted(oracle.saved)}')
  for step, (params, _, steps, metrics) in oracle.saved.items():
    items, rated = saved[step]
    ctx.check(int(items['step']) == steps, 'saved:steps',
              f"{where}: {items['step']} steps at epoch {step} instead of {steps}")
    c44.compare(ctx, 'saved', trainer.params_of(items), params, 1e-4)
    if not ctx.check((rated is None) == (metrics is None), 'saved:rated', where):
      continue
    if metrics is not None:
      ctx.check(set(rated) == set(metrics), 'saved:metrics', f'{sorted(rated)}')
      c44.compare(ctx, 'saved:metrics', rated, metrics, 1e-4)
  got = [(e, m) for e, m in trainer.writer.scalars if 'train/' in ' '.join(m)]
  ctx.check([e for e, _ in got] == [e for e, _ in oracle.written], 'written',
            f'{where}: {[e for e, _ in got]} instead of {[e for e, _ in oracle.written]}')
  for (_, a), (_, b) in zip(got, oracle.written):
    ctx.check(set(a) == set(b), 'written:metrics', f'{sorted(a)}')
    c44.compare(ctx, 'written', a, b, 1e-4)
  # The best epoch: the most accurate one, or the one with the least loss.
  rated = {s: m[trainer.best] for s, (_, _, _, m) in oracle.saved.items() if m is not None}
  if rated:
    sign = -1 if trainer.best.endswith('loss') else 1
    best = trainer.managers[-1].best_step()
    top = max(sign * v for v in rated.values())
    ctx.check(best in rated and sign * rated[best] >= top - 1e-4, 'best', f'{where}: {best} of {rated}')


# --- Keys -------------------------------------------------------------------


def keys(ctx, case):
  """Keys are replaced in parameters and state of the optimizer, and put back."""
  import optax

  from putting_dune.graph_alignment import train

  names = [''.join(w) for n in range(1, 5 if not ctx.deep else 6)
           for w in itertools.product('a/~', repeat=n)]
  back = (('dummy_slash', '/'), ('dummy_tilde', '~'))
  for start, tx in itertools.product(
      range(0, len(names), 4),
      (optax.adamw(0.1), optax.adam(optax.constant_schedule(0.1)),
       optax.sgd(0.1, momentum=0.9))):
    params = {n: {'w': np.array([1.0 * i]), 'x/y': np.array([i + 0.5])}
              for i, n in enumerate(names[start:start + 4])}
    state = train.TrainState.create(
        apply_fn=None, params=params, tx=tx, metrics=train.Metrics.empty())
    grads = {n: {k: v + 1.0 for k, v in d.items()} for n, d in params.items()}
    state = state.apply_gradients(grads=grads)
    clean = train.sanitize_state_keys(state)
    saved = stubs.tree_copy(clean)
    found = top_keys(saved['params']) | top_keys(saved['opt_state'])
    ctx.check(not any('/' in k or '~' in k for k in found), 'keys:left', f'{found}')
    again = train.sanitize_state_keys(clean, back)
    ctx.check(same_tree(stubs.tree_copy(again), stubs.tree_copy(state)), 'keys:restored',
              lambda: f'{names[start:start + 4]}: {again.params}')
    ctx.evaluated('keys', start, str(tx.update))


def top_keys(tree):
  """The keys of modules: dictionaries of dictionaries of arrays."""
  out = set()
  if isinstance(tree, dict):
    for k, v in tree.items():
      if isinstance(v, dict) and set(v) == {'w', 'x/y'}:
        out.add(k)
      else:
        out |= top_keys(v)
  return out


def same_tree(a, b):
  if isinstance(a, dict):
    return isinstance(b, dict) and set(a) == set(b) and all(same_tree(a[k], b[k]) for k in a)
  return np.array_equal(a, b)
