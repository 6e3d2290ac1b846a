"""C16: rates of the transitions the beam causes."""

from mc import util

PROPERTY = 'C16'
LEVEL = 'model_checking'
RULE = (
    'for every rate model (simple, human prior with default and other'
    ' parameters, mixtures with one to three components): every lattice angle,'
    ' offset, both sublattices, every listing order and every beam position of a'
    ' grid around the silicon (on, at, between and far beyond the neighbours),'
    ' against the formulas. A state is (model, lattice, beam).'
)
ASSUMPTIONS = ['rates are compared to 1e-4 relative or 1e-6 absolute']

ANGLES = (0.0, 0.3, 1.7, 3.5, 5.9)
CENTRES = ((0.0, 0.0), (37.5, -112.25))


def models():
  import numpy as np

  return {
      'simple': None,
      'prior': ((0.85, 0.0), ((0.1, 0.0), (0.0, 0.1)), float(np.log(2) / 3)),
      'prior_skewed': ((0.6, 0.25), ((0.2, 0.05), (0.05, 0.1)), 2.5),
      'gmm1': (0.8, [1.0], [1.0], [[0.3, 0.3]]),
      'gmm2': (0.25, [0.7, 0.3], [0.9, 1.7], [[0.4, 0.9], [1.5, 0.3]]),
      # The highest, narrowest and heaviest component are three different ones,
      # and the highest is neither the first nor the last.
      'gmm_mode': (0.5, [0.6, 0.35, 0.05], [0.0, 1.0, -1.9],
                   [[4.0, 4.0], [0.5, 0.5], [0.1, 0.1]]),
      'gmm_light': (0.5, [0.05, 0.95], [-1.9, 1.0], [[0.1, 0.1], [0.2, 0.2]]),
      'gmm3': (1.0, [0.2, 0.5, 0.3], [-0.5, 0.0, 2.0], [[1.0, 2.0], [0.2, 0.2], [4, 1]]),
  }


def cases(tier):
  for name in models():
    for angle in ANGLES:
      for c in range(len(CENTRES)):
        if tier == 'quick' and name.startswith('gmm') and c and angle > 1:
          continue
        yield {'model': name, 'angle': angle, 'centre': c}


def build(name):
  import numpy as np
  from putting_dune import graphene

  parameters = models()[name]
  if name == 'simple':
    return graphene.PristineSingleSiGrRatePredictor(
        canonical_rate_prediction_fn=graphene.simple_canonical_rate_function)
  if name == 'prior':
    predictor = graphene.HumanPriorRatePredictor()
  elif name == 'prior_skewed':
    predictor = graphene.HumanPriorRatePredictor(
        mean=np.array(parameters[0]), cov=np.array(parameters[1]),
        max_rate=parameters[2])
  else:
    return graphene.GaussianMixtureRateFunction(
        max_rate=parameters[0], mixture_weights=np.array(parameters[1]),
        loc_distances=np.array(parameters[2]), variances=np.array(parameters[3]))
  return graphene.PristineSingleSiGrRatePredictor(
      canonical_rate_prediction_fn=predictor.predict)


def gauss(x, cov):
  """Unnormalised and normalised density at x of a centred Gaussian."""
  import numpy as np

  cov = np.array(cov, float)
  det = cov[0, 0] * cov[1, 1] - cov[0, 1] * cov[1, 0]
  inv = np.array([[cov[1, 1], -cov[0, 1]], [-cov[1, 0], cov[0, 0]]]) / det
  e = float(np.exp(-0.5 * x @ inv @ x))
  return e, e / (2 * np.pi * np.sqrt(det))


def reference(name, delta, beam):
  """delta: from the silicon to the neighbour; beam: from the silicon."""
  import numpy as np

  parameters = models()[name]
  if name == 'simple':
    d = np.linalg.norm(beam - delta) / 1.42
    return 1 / (16 * d * d + 1)
  u = delta / np.linalg.norm(delta)
  v = np.array([-u[1], u[0]])
  local = np.array([beam @ u, beam @ v])
  if name.startswith('prior'):
    return parameters[2] * gauss(local / 1.42 - np.array(parameters[0]), parameters[1])[0]
  rate, weights, distances, variances = parameters
  top = max(w * gauss(np.zeros(2), np.diag(s))[1] for w, s in zip(weights, variances))
  total = sum(
      w * gauss(local - np.array([d * np.linalg.norm(delta), 0]), np.diag(s))[1]
      for w, d, s in zip(weights, distances, variances))
  return rate * total / top


def run_case(ctx, case):
  import numpy as np
  from mc import simlib

  fn = build(case['model'])
  centre = np.array(CENTRES[case['centre']])
  for sub in (0, 1):
    honey = util.honeycomb(2, angle=case['angle'], centre=centre)
    if sub:
      honey = 2 * centre - honey  # The other sublattice is the mirror image.
    orders = [np.arange(len(honey)), np.arange(len(honey))[::-1],
              np.argsort((np.arange(len(honey)) * 7) % 13, kind='stable')]
    for o, order in enumerate(orders):
      p = honey[order]
      si = int(np.argmin(np.linalg.norm(p - centre, axis=1)))
      n = np.full(len(p), 6)
      n[si] = 14
      g = util.grid(p, n)
      nb = simlib.neighbours(p, si)
      deltas = p[nb] - p[si]
      beams = [np.zeros(2), deltas[0], deltas[1], deltas[2], -deltas[1],
               0.85 * deltas[2], deltas[0] * 0.5 + deltas[1] * 0.4,
               np.array([0.7, -0.4]), np.array([-2.5, 1.5]), np.array([9.0, 12.0])]
      if o and not ctx.deep:
        beams = beams[5:8]
      for b, beam in enumerate(beams):
        before = util.snap(g)
        rates = fn(g, util.point(*(p[si] + beam)))
        where = f'{case} {sub} {o} {b}'
        ctx.check(util.same(before, util.snap(g)), 'modified', where)
        got = {}
        total = 0.0
        for s in rates.successor_states:
          q = s.grid.atom_positions
          ctx.check(q.shape == p.shape and np.abs(q - p).max() == 0,
                    'successor:moved_atoms', where)
          (new,) = simlib.si_index(s.grid)
          ctx.check(list(np.delete(s.grid.atomic_numbers, new)) == [6] * (len(p) - 1),
                    'successor:elements', where)
          ctx.check(new in nb and new not in got, 'successor:not_a_neighbour', where)
          got[new] = float(s.rate)
          total += float(s.rate)
          ctx.check(s.rate >= 0, 'negative_rate', where)
        ctx.check(len(got) == 3, 'number_of_successors', f'{where} {got}')
        ctx.check(abs(float(rates.total_rate) - total) < 1e-6 * (1 + total),
                  'total_rate', where)
        for j, d in zip(nb, deltas):
          want = reference(case['model'], d, beam)
          ctx.check(abs(got[j] - want) <= 1e-6 + 3e-4 * want, 'rate:' + case['model'],
                    lambda: f'{where}: {got[j]} want {want}')
        ctx.state(case['model'], case['angle'], case['centre'], sub, o, b)
        ctx.step()
      ctx.trace()
  ctx.outcome(case['model'])
