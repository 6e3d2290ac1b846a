"""C24: augmentation of rate-learning data by symmetry."""

import itertools

from mc import util

PROPERTY = 'C24'
LEVEL = 'model_checking'
RULE = (
    'every dataset of up to two (quick) or three transitions over all labels, a'
    ' grid of positions and sets of rates, with every layout of the arrays (flat'
    ' or columns, context of any width or none), for every number of neighbours,'
    ' with and without reflections: the result must be the orbit of each'
    ' transition under the symmetry group, computed with complex numbers; every'
    ' word of group operations up to the depth is applied and compared with the'
    ' product in the group. A state is (dataset, layout) or (transition, word).'
)
ASSUMPTIONS = ['the order of the augmented transitions does not matter']

POSITIONS = ((0.9, 0.0), (0.3, -1.2), (-2.0, 0.7), (0.0, 0.0))
RATES = (0.1, 0.7, 2.5, 0.4, 1.3, 0.02)


def cases(tier):
  for s in itertools.product(range(4), repeat=2 if tier == 'quick' else 3):
    yield {'kind': 'dataset', 'labels': list(s)}
  for n in range(2, 7):
    yield {'kind': 'turns', 'n': n}
  for s in range(4):
    for p in range(len(POSITIONS)):
      yield {'kind': 'words', 'label': s, 'position': p}
  yield {'kind': 'larger'}


def run_case(ctx, case):
  globals()[case['kind']](ctx, case)


def orbit(element, n, reflect):
  """All images of (label, position, rates) under the symmetries."""
  import cmath

  out = []
  for mirrored in ((False, True) if reflect else (False,)):
    label, z, rates = element
    if mirrored:
      # Neighbour j sits at angle 2 pi j / n, and moves to minus that.
      z = z.conjugate()
      rates = [rates[-j % n] for j in range(n)]
      label = 0 if label == 0 else -(label - 1) % n + 1
    for k in range(n):
      out.append((
          0 if label == 0 else (label - 1 + k) % n + 1,
          z * cmath.exp(2j * cmath.pi * k / n),
          [rates[(j - k) % n] for j in range(n)]))
  return out


def flat(element, dt, context):
  label, z, rates = element
  return [label, z.real, z.imag] + list(rates) + [dt] + list(context or [])


def matches(ctx, got, want, sig, where):
  """Both are lists of rows; their order is irrelevant."""
  import numpy as np

  a, b = np.asarray(got, float), np.asarray(want, float)
  if not ctx.check(a.shape == b.shape, sig + ':count', lambda: f'{where}: {a.shape} {b.shape}'):
    return
  d = np.abs(a[:, None] - b[None]).max(-1) < 1e-4
  # Equal rows are equal to the same rows, so that counting is enough.
  ctx.check((d.sum(0) == (np.abs(b[:, None] - b[None]).max(-1) < 1e-4).sum(0)).all()
            and d.any(1).all(), sig, lambda: f'{where}:\n{a}\ninstead of\n{b}')


def build(elements, columns, width):
  import numpy as np

  n = len(elements)
  tail = (1,) if columns else ()
  return {
      'next_state': np.array([e[0] for e in elements]).reshape((n,) + tail),
      'dt': np.array([0.5 + i for i in range(n)], np.float32).reshape((n,) + tail),
      'rates': np.array([e[2] for e in elements], np.float32),
      'position': np.array([[e[1].real, e[1].imag] for e in elements], np.float32),
      'context': None if width is None else np.array(
          [[10 * i + k for k in range(width)] for i in range(n)], np.float32),
  }


def rows(result, width):
  import numpy as np

  n = len(result['position'])
  parts = [np.asarray(result['next_state']).reshape(n, 1), result['position'],
           result['rates'], np.asarray(result['dt']).reshape(n, 1)]
  if width is not None:
    parts.append(result['context'])
  return np.concatenate([np.asarray(p, float) for p in parts], 1)


def augmented(ctx, elements, columns, width, n, reflect, key):
  import numpy as np
  from putting_dune.rate_learning import data_utils

  data = build(elements, columns, width)
  before = util.snap(data)
  kwargs = {} if n == 3 and reflect else {'num_states': n, 'reflect': reflect}
  got = data_utils.augment_data(**data, **kwargs)
  ctx.check(util.same(before, util.snap(data)), 'modified', f'{key}')
  ctx.check(set(got) == set(data), 'keys', f'{key}: {set(got)}')
  size = len(elements) * n * (2 if reflect else 1)
  for k, v in data.items():
    ctx.check(v is None and got[k] is None or
              v is not None and np.shape(got[k]) == (size,) + v.shape[1:],
              'shape:' + k, lambda: f'{key}: {k} {got[k]}')
  want = []
  for i, e in enumerate(elements):
    context = None if width is None else [10 * i + k for k in range(width)]
    want += [flat(o, 0.5 + i, context) for o in orbit(e, n, reflect)]
  matches(ctx, rows(got, width), want, 'orbit', key)
  ctx.step(size)
  ctx.state(key)


def dataset(ctx, case):
  labels = case['labels']
  for i, p in enumerate(itertools.product(range(len(POSITIONS)), repeat=len(labels))):
    elements = [(s, complex(*POSITIONS[p[k]]), RATES[k:k + 3])
                for k, s in enumerate(labels)]
    layouts = list(itertools.product((False, True), (None, 1, 2, 3)))
    for columns, width in (layouts if i == 1 else [layouts[i % 8]]):
      augmented(ctx, elements, columns, width, 3, True,
                (tuple(labels), p, columns, width))
  ctx.trace()


def turns(ctx, case):
  n = case['n']
  for labels in itertools.product(range(n + 1), repeat=2):
    elements = [(s, complex(*POSITIONS[k]), RATES[:n]) for k, s in enumerate(labels)]
    augmented(ctx, elements, bool(labels[0] % 2), (None, 1, 2)[labels[1] % 3], n, False,
              ('turns', n, labels))
  if n != 3:
    from putting_dune.rate_learning import data_utils
    error = util.raises(lambda: data_utils.augment_data(
        **build(elements, False, None), num_states=n, reflect=True))
    ctx.check(error is not None, 'reflect:unsupported', f'{n} {error!r}')
  ctx.trace()


def words(ctx, case):
  """Chains of single operations form the symmetry group."""
  import numpy as np
  from putting_dune.rate_learning import data_utils

  start = (case['label'], complex(*POSITIONS[case['position']]), RATES[1:4])

  def turn(x, k):
    out = data_utils.get_transition_rotations(*x)
    return tuple(None if v is None else v[k] for v in out)

  def mirror(x, _):
    return data_utils.reflect_transition(*x)

  moves = [(turn, 1), (turn, 2), (mirror, 0)]
  group = [lambda e: orbit(e, 3, False)[1], lambda e: orbit(e, 3, False)[2],
           lambda e: orbit(e, 3, True)[3]]
  for word in util.sequences(range(3), 4 if ctx.deep else 3):
    for width in (None, 2):
      x = (np.int32(start[0]), np.float32(2.5), np.array(start[2], np.float32),
           np.array([start[1].real, start[1].imag], np.float32),
           None if width is None else np.array([7.0, 8.0], np.float32))
      want = start
      for w in word:
        x = moves[w][0](x, moves[w][1])
        want = group[w](want)
      where = f'{case} {word}: {x} instead of {want}'
      ctx.check(int(x[0]) == want[0], 'word:label', where)
      ctx.check(float(x[1]) == 2.5, 'word:time', where)
      ctx.check(util.close(x[2], np.float32(want[2]), 1e-6), 'word:rates', where)
      ctx.check(abs(complex(*map(float, x[3])) - want[1]) < 1e-5, 'word:position', where)
      ctx.check(x[4] is None if width is None else util.close(x[4], [7.0, 8.0]),
                'word:context', where)
      ctx.step(len(word))
    ctx.state(case['label'], case['position'], word)
  ctx.trace()


def larger(ctx, case):
  """Datasets of many transitions, and of none to rotate about."""
  for n in (5, 17, 64):
    elements = [(i * 7 % 4, complex(0.1 * i - 1, (i * i) % 7 - 3.0),
                 [0.01 * i, 1.0 + i, 0.5 * i]) for i in range(n)]
    augmented(ctx, elements, n == 17, 2, 3, True, ('larger', n))
    augmented(ctx, elements, n == 5, None, 3, False, ('larger', n, 'turns'))
  ctx.trace()
