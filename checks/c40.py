"""C40: drifts of a trajectory."""

import itertools

from mc import util

PROPERTY = 'C40'
LEVEL = 'model_checking'
RULE = (
    'every sequence of up to four (quick) or five drifts from a set is'
    ' accumulated in both groupings and applied to every observation of a set'
    ' (with and without images, labels and controls, one atom or many, any'
    ' view), against arithmetic on fractions. A state is (drifts, observation).'
)
ASSUMPTIONS = ['the jitter has one row per atom']

DRIFTS = ((0.0, 0.0), (0.25, -0.5), (-1.0, 2.0), (1e3, 0.125))


def cases(tier):
  for n in range(1, 5 if tier == 'quick' else 6):
    for first in range(len(DRIFTS)):
      yield {'n': n, 'first': first}


def run_case(ctx, case):
  import numpy as np
  from putting_dune import microscope_utils as mu

  def make(k, i, atoms):
    jitter = np.array([[0.125 * (i + 1) * (j + 1), -0.0625 * (i + j)] for j in range(atoms)]
                      ).reshape(-1, 2)
    return mu.Drift(jitter=jitter, drift=np.array(DRIFTS[k]))

  for rest in itertools.product(range(len(DRIFTS)), repeat=case['n'] - 1):
    word = (case['first'],) + rest
    n = len(word)
    # Each observation may see other atoms than the one before.
    counts = [(m,) * n for m in (0, 1, 5)]
    if n > 1:
      counts += [tuple(range(1, n + 1)), tuple(range(n - 1, -1, -1)), (4,) + (2,) * (n - 1)]
    for numbers in counts:
      atoms = numbers[-1]
      drifts = [make(k, i, m) for i, (k, m) in enumerate(zip(word, numbers))]
      total = drifts[0]
      expected = np.array(DRIFTS[word[0]])
      for i, d in enumerate(drifts[1:], 1):
        before = util.snap([d, total])
        total = d.cumulate_drift(total)
        ctx.check(util.same(before, util.snap([d, drifts[0] if i == 1 else previous])),
                  'cumulate:modified', f'{word}')
        previous = total
        expected = expected + np.array(DRIFTS[word[i]])
        ctx.check(util.close(total.drift, expected), 'cumulate:drift', f'{word} {total}')
        ctx.check(util.close(total.jitter, d.jitter), 'cumulate:jitter', f'{word} {total}')
        ctx.step()
      if len(drifts) == 3:
        a, b, c = drifts
        ctx.check(util.same(util.snap(c.cumulate_drift(b.cumulate_drift(a))),
                            util.snap(c.cumulate_drift(b).cumulate_drift(a)), 1e-9),
                  'cumulate:grouping', f'{word}')
      for k, view in enumerate(((0, 0, 20, 20), (-7.5, 3, 12.5, 43))):
        for extra in range(4):
          p = np.array([[0.1 + 0.15 * j, 0.9 - 0.1 * j] for j in range(atoms)]).reshape(-1, 2)
          o = util.observation(
              util.grid(p, [14] * min(atoms, 1) + [6] * max(atoms - 1, 0)), util.fov(*view),
              [util.control(0.5, 0.25 * j, 1.5 + j, voltage_kv=60.0) for j in range(extra)],
              seconds=3.5 + k,
              image=np.full((2, 3), 7) if extra & 1 else None,
              label_image=np.full((3, 2), 9) if extra & 2 else None)
          got = util.pure(ctx, 'apply', total.apply_to_observation, o)
          where = f'{word} {atoms} {view} {extra}: {got}'
          ctx.check(util.close(got.grid.atom_positions, p - total.jitter), 'apply:atoms', where)
          ctx.check(util.close(got.grid.atomic_numbers, o.grid.atomic_numbers),
                    'apply:numbers', where)
          box = (got.fov.lower_left.x, got.fov.lower_left.y, got.fov.upper_right.x,
                 got.fov.upper_right.y)
          want = np.array(view) + np.tile(expected, 2)
          ctx.check(util.close(box, want), 'apply:view', where)
          for name in ('controls', 'elapsed_time', 'image', 'label_image'):
            ctx.check(util.same(util.snap(getattr(got, name)), util.snap(getattr(o, name))),
                      'apply:' + name, where)
          # Positions in the material frame move by the drift.
          if atoms:
            a = o.fov.microscope_frame_to_material_frame(o.grid).atom_positions
            b = got.fov.microscope_frame_to_material_frame(got.grid).atom_positions
            size = np.array([view[2] - view[0], view[3] - view[1]])
            ctx.check(util.close(b - a, expected - total.jitter * size, 1e-6),
                      'apply:material', where)
          ctx.state(word, numbers, k, extra)
          ctx.step()
  ctx.trace()
