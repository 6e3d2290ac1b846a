"""C26: the standard pose of beam and neighbours."""

import itertools

from mc import util

PROPERTY = 'C26'
LEVEL = 'model_checking'
RULE = (
    'every number of neighbours from one to six, orientation, distortion and'
    ' order of listing, and beam position on a polar grid, compared with complex'
    ' arithmetic; then the whole scene is turned by every angle of a list, which'
    ' must not change the result. A state is the combination of these choices.'
)
ASSUMPTIONS = ['beams equally near to two neighbours are left out']

TURNS = (0.4, 1.7, 3.141592653589793, -1.2, 5.5)


def cases(tier):
  for n in range(1, 7):
    for angle in range(8 if tier == 'quick' else 24):
      yield {'n': n, 'angle': angle}


def run_case(ctx, case):
  import cmath
  import math
  import numpy as np
  from putting_dune.rate_learning import data_utils

  n = case['n']
  start = case['angle'] * 2 * math.pi / (24 if ctx.deep else 8)
  # The angles include multiples of pi/4: neighbours lie on the axes.
  lengths = [1.42, 1.3, 1.6, 1.5, 1.2, 1.7]
  bends = [0.0, 0.07, -0.05, 0.02, 0.1, -0.1]
  for bent in (False, True):
    nb = [cmath.rect(lengths[j] if bent else 1.42,
                     start + 2 * math.pi * j / n + (bends[j] if bent else 0.0))
          for j in range(n)]
    orders = list(itertools.permutations(range(n))) if n < 4 else [
        tuple(np.random.RandomState(k).permutation(n)) for k in range(6)]
    for order in orders:
      listed = [nb[j] for j in order]
      for r in (0.0, 0.4, 1.42, 5.0):
        for k in range(1 if r == 0 else 11):
          beam = cmath.rect(r, 0.03 + start + 2 * math.pi * k / 11)
          d = sorted(abs(beam - z) for z in listed)
          if n > 1 and d[1] - d[0] < 1e-3:
            continue
          near = min(listed, key=lambda z: abs(beam - z))
          unit = near / abs(near)
          want_order = sorted(
              range(n), key=lambda j: (cmath.phase(listed[j] / near) + 1e-6) % (2 * math.pi))
          results = []
          for turn in (0.0,) + (TURNS if k % 4 == 0 else ()):
            q = cmath.exp(1j * turn)
            a = np.array([(beam * q).real, (beam * q).imag])
            b = np.array([[(z * q).real, (z * q).imag] for z in listed])
            if k % 2:
              got = data_utils.standardize_beam_and_neighbors(a, b)
            else:
              got = util.pure(ctx, 'pure', data_utils.standardize_beam_and_neighbors, a, b)
            where = f'{case} {order} {beam} {turn}: {got}'
            ctx.check(np.shape(got[0]) == (2,) and
                      abs(complex(*got[0]) - beam / unit) < 1e-9, 'beam', where)
            ctx.check(util.close(got[1], [[(z / unit).real, (z / unit).imag] for z in listed]),
                      'neighbours', where)
            ctx.check(list(got[2]) == want_order, 'order', where)
            results.append(got)
            ctx.step()
          ctx.state(case['n'], case['angle'], bent, order, r, k)
  ctx.trace()
