"""C39: angles, rotations and nearest neighbours."""

from mc import util

PROPERTY = 'C39'
LEVEL = 'model_checking'
RULE = (
    'every composition of rotations up to the depth from a set of angles'
    ' (including zero, negative, more than a turn) applied to every layout of'
    ' points with both implementations, tracked with complex numbers; for every'
    ' layout of atoms and every query (an atom, between atoms, far away; one'
    ' point or many, single precision too) the three nearest neighbours are'
    ' compared with a brute-force search. A state is (layout, angles) or'
    ' (layout, query).'
)
ASSUMPTIONS = ['neighbours at equal distances may come in any order']

TURNS = (0.0, 0.3, -1.1, 3.141592653589793, 2.5, 7.9)


def layouts():
  import numpy as np

  return {
      'axes': np.array([[1.0, 0], [0, 1], [-1, 0], [0, -1], [3, 3], [-2, -2],
                        [0.5, -0.5], [-4, 4]]),
      'lattice': util.honeycomb(3, angle=0.1),
      'shifted': util.honeycomb(2, angle=2.0, centre=(500.0, -300.0)),
      'small': np.array([[0.0, 0.01], [0.02, 0.0], [0.3, 0.1], [0.9, 0.95]]),
  }


def cases(tier):
  for name in layouts():
    for first in range(len(TURNS)):
      yield {'kind': 'rotate', 'layout': name, 'first': first,
             'depth': 4 if tier != 'quick' else 3}
    yield {'kind': 'neighbours', 'layout': name}


def run_case(ctx, case):
  (rotate if case['kind'] == 'rotate' else neighbours)(ctx, case)


def rotate(ctx, case):
  import cmath
  import numpy as np
  from mc import core
  from putting_dune import geometry

  p = layouts()[case['layout']]
  size = np.abs(p).max() + 1

  def history(chooser):
    z = p[:, 0] + 1j * p[:, 1]
    q, j = p.copy(), p.astype(np.float32)
    for k in range(case['depth']):
      c = chooser.choose('turn', len(TURNS)) if k else case['first']
      z = z * cmath.exp(1j * TURNS[c])
      kept = q.copy()
      q2 = geometry.rotate_coordinates(q, TURNS[c])
      ctx.check((q == kept).all(), 'rotate:modified', f'{case}')
      q = np.asarray(q2)
      where = f'{case} {chooser.taken}'
      ctx.check(q.shape == p.shape and
                np.abs(q[:, 0] + 1j * q[:, 1] - z).max() < 1e-12 * size, 'rotate', where)
      if k < 2:
        j = np.asarray(geometry.jnp_rotate_coordinates(j, TURNS[c]))
        ctx.check(j.shape == p.shape and
                  np.abs(j[:, 0] + 1j * j[:, 1] - z).max() < 2e-6 * size,
                  'rotate:jax', where)
      a = geometry.get_angles(q)
      want = np.angle(z)
      gap = np.abs(np.exp(1j * a) - np.exp(1j * want))[np.abs(z) > 1e-6]
      ctx.check(a.shape == (len(p),) and gap.max() < 1e-9 and
                (np.abs(a) <= np.pi + 1e-9).all(), 'angles', where)
      ctx.step()
      ctx.state(case['layout'], case['first'], tuple(chooser.taken[:k]))
    ctx.trace()

  for _ in core.explore(history):
    pass


def neighbours(ctx, case):
  import numpy as np
  from putting_dune import geometry

  p = layouts()[case['layout']]
  queries = [p[i] for i in range(min(len(p), 12))]
  queries += [p[0] + [0.4, 0.3], (p[0] + p[1]) / 2 + [0.01, 0.02],
              p.mean(0) + [1000.0, -20.0]]

  def verify(distances, indices, query, skip, where):
    d = np.linalg.norm(p - query, axis=1)
    want = np.sort(d)[skip:4]
    tol = 1e-5 * (1 + np.abs(query).max())
    ctx.check(distances.shape == indices.shape == (4 - skip,), 'shape',
              f'{where} {distances.shape}')
    ctx.check(np.abs(distances - want).max() < tol, 'distances',
              f'{where} {distances} {want}')
    ctx.check(np.abs(d[indices] - want).max() < tol and
              len(set(indices.tolist())) == 4 - skip, 'indices', f'{where} {indices}')

  for dtype in (np.float64, np.float32):
    atoms = p.astype(dtype)
    for i, query in enumerate(queries):
      for include in (False, True):
        where = f'{case} {query} {include}'
        kept = atoms.copy()
        out = geometry.nearest_neighbors3(atoms, query.astype(dtype),
                                          include_self=include)
        verify(out.neighbor_distances, out.neighbor_indices, query, 1 - include, where)
        ctx.check((atoms == kept).all(), 'modified', where)
        row = geometry.nearest_neighbors3(atoms, query.astype(dtype)[None],
                                          include_self=include)
        ctx.check(row.neighbor_indices.shape == (1, 3 + include), 'row:shape', where)
        verify(row.neighbor_distances[0], row.neighbor_indices[0], query,
               1 - include, where)
        ctx.state(case['layout'], i, include, dtype.__name__)
        ctx.step()
    for n in (2, len(queries)):
      out = geometry.nearest_neighbors3(atoms, np.array(queries[:n]).astype(dtype))
      ctx.check(out.neighbor_indices.shape == (n, 3), 'many:shape', f'{case} {n}')
      for i in range(n):
        verify(out.neighbor_distances[i], out.neighbor_indices[i], queries[i], 1,
               f'{case} {n} {i}')
  ctx.trace()
