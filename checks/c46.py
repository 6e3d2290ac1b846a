"""C46: networks of graphs and images keep to the symmetries of their inputs."""

import functools
import itertools

import numpy as np

from mc import stubs

PROPERTY = 'C46'
LEVEL = 'exploration'
RULE = (
    'graphs: for each arrangement of atoms in frames every permutation within each'
    ' frame, shifts of a grid, every amount of spare room for edges and width of'
    ' the halo, and lists of neighbours made elsewhere; images: a bright pixel at'
    ' every place, and every size of image. A state is the combination.'
)
ASSUMPTIONS = [
    'parameters drawn at random, layers of 32 features',
    'float32 accuracy',
    'lists of neighbours have room for all edges',
]

BOX = 300.0
CUTOFF = 4.26

# Positions of two frames of three atoms, far apart, close, and in two groups.
ARRANGEMENTS = {
    'together': ((0, 0), (1.4, 0.1), (0.3, 1.2)),
    'chain': ((0, 0), (3.9, 0.2), (7.8, -0.3)),
    'two groups': ((0, 0), (1.2, 0.4), (9.0, 2.0)),
    'apart': ((0, 0), (8.0, 1.0), (-3.0, 9.0)),
    'coincident': ((0, 0), (0, 0), (2.0, 1.0)),
}
DRIFTS = ((0.0, 0.0), (0.4, -0.3))
SHIFTS = tuple(itertools.product((-30.0, 0.0, 0.7), (0.0, 12.5, -2.0)))


def cases(tier):
  deep = tier != 'quick'
  for name, drift in itertools.product(ARRANGEMENTS, range(len(DRIFTS))):
    for recurrences in (1, 3) if deep else (2,):
      yield {'kind': 'graphs', 'name': name, 'drift': drift, 'recurrences': recurrences}
  for kind in ('local', 'both'):
    yield {'kind': 'pixels', 'net': kind, 'features': [2, 3]}
    for depth, channels in itertools.product((1, 2, 3), (1, 5)):
      yield {'kind': 'sizes', 'net': kind, 'depth': depth, 'channels': channels}
    if deep:
      yield {'kind': 'pixels', 'net': kind, 'features': [2, 3, 4]}


def run_case(ctx, case):
  stubs.grain()
  globals()[case['kind']](ctx, case)


FRAMES, ATOMS = 2, 3


@functools.lru_cache(None)
def network(recurrences, halo):
  import jax
  import jax.numpy as jnp
  from jax_md import partition
  from jax_md import space

  from putting_dune.graph_alignment import model

  displacement, _ = space.periodic(jnp.ones(3) * BOX)
  neighbors, init, apply = model.graph_network_neighbor_list(
      displacement, jnp.array(BOX), r_cutoff=CUTOFF, dr_threshold=halo, n_recurrences=recurrences,
      sequence_length=FRAMES, mlp_sizes=(32, 32), disable_cell_list=True,
      partition_format=partition.Sparse)
  run = jax.jit(lambda params, x, n, f: apply(params, x, n, nodes=f))
  return neighbors, init, run


def close(a, b):
  return all(np.abs(np.asarray(x) - np.asarray(y)).max() < 1e-4 for x, y in zip(a, b))


def arrangement(case):
  p = np.zeros((FRAMES, ATOMS, 3), np.float32)
  for t in range(FRAMES):
    for i, (x, y) in enumerate(ARRANGEMENTS[case['name']]):
      p[t, i] = (40 + x + t * DRIFTS[case['drift']][0] + 0.05 * i * t,
                 60 + y + t * DRIFTS[case['drift']][1], float(t))
  f = (np.arange(FRAMES * ATOMS * 2).reshape(FRAMES, ATOMS, 2) * 5 % 7).astype(np.float32) / 4
  return p, f


def graphs(ctx, case):
  import dataclasses

  import jax
  import jax.numpy as jnp

  p, f = arrangement(case)
  total = FRAMES * ATOMS

  def listed(neighbors, x, room):
    """The list of neighbours, with room for more edges."""
    made = neighbors.allocate(jnp.asarray(x.reshape(-1, 3)))
    idx = np.asarray(made.idx)
    idx = idx[:, idx[0] < total]
    idx = np.concatenate([idx, np.full((2, room - idx.shape[1]), total)], 1)
    return dataclasses.replace(made, idx=jnp.asarray(idx))

  neighbors, init, run = network(case['recurrences'], 0.0)
  params = init(jax.random.PRNGKey(7), jnp.asarray(p), listed(neighbors, p, 40), jnp.asarray(f))

  def output(x, features, n=None, halo=0.0):
    nets = network(case['recurrences'], halo)
    n = listed(nets[0], x, 40) if n is None else n
    return nets[2](params, jnp.asarray(x), n, jnp.asarray(features))

  base = output(p, f)
  ctx.check(base[0].shape == (FRAMES, 2) and base[1].shape == (FRAMES, ATOMS, 2), 'graph:shape',
            f'{base[0].shape} {base[1].shape}')
  ctx.check(float(np.abs(base[0]).max()) > 1e-3, 'graph:trivial', f'{base[0]}')
  orders = list(itertools.permutations(range(ATOMS)))
  for a, b in itertools.product(orders, orders):
    x = np.stack([p[0][list(a)], p[1][list(b)]])
    features = np.stack([f[0][list(a)], f[1][list(b)]])
    got = output(x, features)
    want = np.stack([np.asarray(base[1])[0][list(a)], np.asarray(base[1])[1][list(b)]])
    ctx.check(close(got, (base[0], want)), 'graph:order', lambda: f'{case} {a} {b}: {got} {want}')
    ctx.evaluated('order', case, a, b)
  for dx, dy in SHIFTS:
    got = output(p + np.array([dx, dy, 0.0], np.float32), f)
    ctx.check(close(got, base), 'graph:shift', lambda: f'{case} {dx} {dy}: {got} {base}')
    ctx.evaluated('shift', case, dx, dy)
  for room in range(36, 60, 4):
    got = output(p, f, listed(neighbors, p, room))
    ctx.check(close(got, base), 'graph:room', lambda: f'{case} {room}: {got} {base}')
    ctx.evaluated('room', case, room)
  # A halo only means that the list stays valid while atoms move.
  for halo, k in itertools.product((0.5, 1.5), range(4)):
    move = np.zeros_like(p)
    move[..., 0] = 0.2 * halo * np.cos(k + np.arange(total).reshape(FRAMES, ATOMS))
    move[..., 1] = 0.2 * halo * np.sin(k + np.arange(total).reshape(FRAMES, ATOMS))
    nets = network(case['recurrences'], halo)
    for where in (p, p + move):
      got = output(p, f, listed(nets[0], where, 40), halo)
      ctx.check(close(got, base), 'graph:halo', lambda: f'{case} {halo}: {got} {base}')
      ctx.evaluated('halo', case, halo, k, where is p)
  # Groups that are not connected may be anywhere.
  if case['name'] in ('two groups', 'apart'):
    for dx, dy in ((5.0, 0.0), (20.0, -3.0), (0.0, 40.0)):
      x = p.copy()
      x[:, 2] += np.array([dx, dy, 0.0], np.float32) * (1 if case['name'] == 'two groups' else -1)
      got = output(x, f)
      ctx.check(close(got, base), 'graph:apart', lambda: f'{case} {dx} {dy}: {got} {base}')
      ctx.evaluated('apart', case, dx, dy)
  # But connected ones see each other.
  x = p.copy()
  x[0, 1] += np.array([0.3, 0.1, 0.0], np.float32)
  if case['name'] in ('together', 'chain', 'coincident'):
    ctx.check(not close(output(x, f), base), 'graph:blind', f'{case}')
    ctx.evaluated('blind', case)


# --- Images -----------------------------------------------------------------


def net_of(kind, features, local=3, overall=2):
  if kind == 'local':
    from putting_dune.atom_detection import model

    return model.UNet(features=tuple(features), num_classes=local)
  from putting_dune.image_alignment import model

  return model.GlobalLocalUNet(
      features=tuple(features), local_output_size=local, global_output_size=overall)


def pixels(ctx, case):
  """A bright pixel changes what is around it, the same way everywhere."""
  import jax
  import jax.numpy as jnp

  net = net_of(case['net'], case['features'])
  stride = 2**(len(case['features']) - 1)
  reach = (5 if case['net'] == 'local' else 11) * stride // 2 + 2
  size = 2 * reach + 3 * stride
  size += -size % stride
  params = net.init(jax.random.PRNGKey(3), jnp.zeros((size, size, 1)))
  local = (lambda x: net.apply(params, x)) if case['net'] == 'local' else (
      lambda x: net.apply(params, x)[0])
  run = jax.jit(jax.vmap(local))
  blank = np.full((size, size, 1), 0.25, np.float32)
  base = np.asarray(run(blank[None]))[0]
  responses = {}
  for y in range(size):
    images = np.repeat(blank[None], size, 0)
    images[np.arange(size), y, np.arange(size), 0] = 1.0
    for x, out in enumerate(np.asarray(run(images))):
      rows, columns = np.nonzero(np.abs(out - base).max(-1) > 1e-5)
      ctx.check(len(rows) and np.abs(rows - y).max() <= reach and np.abs(columns - x).max() <= reach,
                'pixel:reach', lambda: f'{case} {y} {x}: {rows} {columns}')
      if reach <= y < size - reach and reach <= x < size - reach:
        patch = out[y - reach:y + reach + 1, x - reach:x + reach + 1]
        # Away from the borders.
        inner = patch[reach - 2:reach + 3, reach - 2:reach + 3]
        first = responses.setdefault((y % stride, x % stride), (y, x, inner))
        ctx.check(np.abs(first[2] - inner).max() < 1e-3, 'pixel:shift',
                  lambda: f'{case} {y} {x} differs from {first[:2]}')
      ctx.evaluated('pixel', case, y, x)
  ctx.check(len(responses) == stride**2, 'pixel:places', f'{case} {len(responses)}')


def sizes(ctx, case):
  """Outputs have the size of the image, and the channels that are asked for."""
  import jax
  import jax.numpy as jnp

  depth, channels = case['depth'], case['channels']
  for local, overall in itertools.product((3, 15), (2, 8)):
    if case['net'] == 'local' and overall == 8:
      continue
    net = net_of(case['net'], (2,) * depth, local, overall)
    stride = 2**(depth - 1)
    params = jax.eval_shape(net.init, jax.random.PRNGKey(0), jnp.zeros((stride, stride, channels)))
    for height, width in itertools.product(range(stride, 17 if ctx.deep else 9, stride), repeat=2):
      got = jax.eval_shape(net.apply, params, jnp.zeros((height, width, channels)))
      shapes = (got.shape,) if case['net'] == 'local' else tuple(g.shape for g in got)
      want = ((height, width, local), (overall,))[:len(shapes)]
      ctx.check(shapes == want, 'size', f'{depth} {height} {width} {channels}: {shapes}')
      ctx.evaluated('size', case, local, overall, height, width)
