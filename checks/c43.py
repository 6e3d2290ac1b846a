"""C43: plots of rate functions show the rates of the places they name."""

import itertools

import numpy as np

from mc import util

PROPERTY = 'C43'
LEVEL = 'exploration'
RULE = (
    'every orientation of the lattice, place of the silicon, order of atoms,'
    ' rate function, number of points, extent and radius, for each of the three'
    ' plots; and grids without silicon. A state is the combination.'
)
ASSUMPTIONS = [
    'three neighbours',
    'lines, markers and contours are read from the axes',
    'angles on arcs are measured as the code does, from the y axis towards the x axis',
]

ANGLES = (0.0, 0.5, 2.0, 3.3, 5.0)
CENTRES = ((0.0, 0.0), (31.0, -12.5))


def cases(tier):
  deep = tier != 'quick'
  for angle, centre, order in itertools.product(
      range(len(ANGLES)), range(len(CENTRES)), range(3)):
    yield {'kind': 'lines', 'angle': angle, 'centre': centre, 'order': order}
    if deep or order == (angle + centre) % 3:
      for function in range(len(FUNCTIONS)):
        yield {'kind': 'maps', 'angle': angle, 'centre': centre, 'order': order,
               'function': function}
  yield {'kind': 'refused'}


def run_case(ctx, case):
  import warnings

  import matplotlib

  matplotlib.use('Agg')
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    globals()[case['kind']](ctx, case)


# Rates towards each neighbour, by the place of the beam relative to the silicon
# and the place of the neighbour relative to it, by its number.
def peaks(beam, neighbour, k):
  return (1.0 + k) * np.exp(-2.0 * np.sum((beam - neighbour) ** 2)) + 1e-6


def beyond(beam, neighbour, k):
  return (3.0 - k) * np.exp(-3.0 * np.sum((beam - 1.8 * neighbour) ** 2)) + 1e-6


def behind(beam, neighbour, k):
  return 0.5 * np.exp(-3.0 * np.sum((beam + neighbour) ** 2)) * (1 + 0.5 * k) + 1e-6


FUNCTIONS = (peaks, beyond, behind)
PEAK = (1.0, 1.8, -1.0)


def scene(case):
  """A grid with one silicon, its place and its neighbours from there."""
  points = util.honeycomb(2, angle=ANGLES[case['angle']])
  # A little out of place, so that there is a nearest one.
  points[1:4] *= np.array([[1.06], [1.0], [1.03]])
  points = points + np.array(CENTRES[case['centre']])
  numbers = np.full(len(points), 6)
  numbers[0] = 14
  n = len(points)
  order = [np.arange(n), np.arange(n)[::-1], (np.arange(n) * 5) % n if n % 5 else
           np.roll(np.arange(n), 7)][case['order']]
  assert sorted(order) == list(range(n))
  return util.grid(points[order], numbers[order]), points[0], points[1:4] - points[0]


class Function:
  """A rate function which remembers what it is asked."""

  def __init__(self, of, neighbours):
    self.of = of
    self.neighbours = neighbours
    self.beams = []

  def __call__(self, grid, beam_position):
    from putting_dune import graphene
    from putting_dune import microscope_utils as mu

    positions = grid.atom_positions
    silicon = int(np.flatnonzero(grid.atomic_numbers == 14)[0])
    beam = np.array([beam_position.x, beam_position.y]) - positions[silicon]
    self.beams.append(beam)
    states = []
    for k, v in enumerate(self.neighbours):
      i = int(np.argmin(np.linalg.norm(positions - positions[silicon] - v, axis=1)))
      numbers = grid.atomic_numbers.copy()
      numbers[i], numbers[silicon] = 14, 6
      states.append(graphene.SuccessorState(
          mu.AtomicGridMaterialFrame(mu.AtomicGrid(positions.copy(), numbers)),
          float(self.of(beam, v, k))))
    return graphene.Rates(states)

  def rates(self, beam):
    return np.array([self.of(beam, v, k) for k, v in enumerate(self.neighbours)])


def axes():
  from matplotlib import pyplot as plt

  return plt.subplots()


def lines(ctx, case):
  from matplotlib import pyplot as plt
  from putting_dune import plotting_utils

  grid, _, neighbours = scene(case)
  mean = np.linalg.norm(neighbours, axis=1).mean()
  before = util.snap(grid)
  for of, points in itertools.product(FUNCTIONS, (2, 9, 40)):
    # Along the vector to a neighbour.
    for extent in ((-5.0, 10.0), (0.0, 1.0), (-1.0, 2.5)):
      where = f'{of.__name__}, turned by {ANGLES[case["angle"]]}, {points} points of {extent}'
      fig, ax = axes()
      plotting_utils.plot_rate_along_neighbor_vector3(
          ax, Function(of, neighbours), grid, extent=extent, num_points=points)
      if ctx.check(len(ax.lines) == 1, 'vector:lines', lambda: f'{where}: {len(ax.lines)}'):
        xy = np.array(ax.lines[0].get_xydata())
        want = np.linspace(*extent, points)
        ctx.check(len(xy) == points and np.allclose(xy[:, 0], want), 'vector:places',
                  lambda: f'{where}: {xy}')
        curves = [np.array([of(x * v, v, k) for x in xy[:, 0]]) for k, v in enumerate(neighbours)]
        ctx.check(any(np.allclose(xy[:, 1], c, rtol=1e-4, atol=1e-7) for c in curves),
                  'vector:rates', lambda: f'{where}: {xy}, neither of {curves}')
      atoms = [s for c in ax.collections if type(c).__name__ == 'LineCollection'
               for s in c.get_segments()]
      ctx.check(sorted(round(s[0][0], 6) for s in atoms) == [0.0, 1.0]
                and all(s[0][0] == s[1][0] for s in atoms),
                'vector:atoms', lambda: f'{where}: {atoms}')
      plt.close(fig)
      ctx.evaluated('vector', of.__name__, case['angle'], case['centre'], case['order'],
                    points, extent)
      ctx.state('vector', of.__name__, case['angle'], case['centre'], case['order'], points, extent)
      ctx.step(points)
    # Along an arc.
    for radius in (1.0, 0.3, 2.0):
      where = f'{of.__name__}, turned by {ANGLES[case["angle"]]}, {points} points, radius {radius}'
      fig, ax = axes()
      plotting_utils.plot_rate_along_arc3(
          ax, Function(of, neighbours), grid, normalized_radius=radius, num_points=points)
      handles, labels = ax.get_legend_handles_labels()
      drawn = {}
      for line in ax.lines:
        if len(line.get_xdata()):
          drawn[line.get_color()] = np.array(line.get_xydata())
      ctx.check(len(drawn) == 4, 'arc:lines', lambda: f'{where}: {len(drawn)}')
      named = {l: drawn.get(h.get_color()) for h, l in zip(handles, labels)}
      ctx.check(set(named) == {'Total rate', '1', '2', '3'}, 'arc:names',
                lambda: f'{where}: {set(named)}')
      turn = np.linspace(0, 2 * np.pi, points)
      beams = [radius * mean * np.array([np.sin(a), np.cos(a)]) for a in turn]
      table = np.array([Function(of, neighbours).rates(b) for b in beams])
      left = {0, 1, 2}
      for name, xy in named.items():
        if xy is None:
          continue
        if not ctx.check(len(xy) == points and np.allclose(xy[:, 0], turn), 'arc:angles',
                         lambda: f'{where}: {xy}'):
          continue
        if name == 'Total rate':
          ctx.check(np.allclose(xy[:, 1], table.sum(1), rtol=1e-4, atol=1e-7), 'arc:total',
                    lambda: f'{where}: {xy}')
        else:
          k = [k for k in left if np.allclose(xy[:, 1], table[:, k], rtol=1e-4, atol=1e-7)]
          if ctx.check(bool(k), 'arc:rates', lambda: f'{where}: {name}: {xy}, none of {table}'):
            left.discard(k[0])
      plt.close(fig)
      ctx.evaluated('arc', of.__name__, case['angle'], case['centre'], case['order'],
                    points, radius)
      ctx.state('arc', of.__name__, case['angle'], case['centre'], case['order'], points, radius)
      ctx.step(points)
  ctx.check(util.same(before, util.snap(grid)), 'lines:modified', '')
  ctx.trace()


def contours(ax):
  """The contours in an axis: by the name of the colours, all their points."""
  found = {}
  for c in ax.collections:
    if c.get_cmap() is None or c.get_array() is None:
      continue
    vertices = [p.vertices for p in c.get_paths() if len(p.vertices)]
    if vertices:
      found.setdefault(c.get_cmap().name, []).append((c, np.concatenate(vertices)))
  return found


def maps(ctx, case):
  from matplotlib import pyplot as plt
  import matplotlib
  from putting_dune import plotting_utils

  grid, silicon, neighbours = scene(case)
  of, at = FUNCTIONS[case['function']], PEAK[case['function']]
  for extent, points in (((-4.5, 4.5), 15), ((-3.0, 3.0), 12)):
    where = f'{of.__name__}, turned by {ANGLES[case["angle"]]}, {points} points of {extent}'
    function = Function(of, neighbours)
    fig, ax = axes()
    plotting_utils.plot_rate_function3(
        ax, function, grid, extent=extent, num_raster_points=points)
    raster = np.linspace(*extent, points)
    want = np.array(list(itertools.product(raster, raster)))
    got = np.array(sorted(map(tuple, function.beams)))
    ctx.check(got.shape == want.shape and np.allclose(got, want, atol=1e-6), 'map:raster',
              lambda: f'{where}: {len(got)} places')
    markers = [np.asarray(c.get_offsets()) for c in ax.collections
               if type(c).__name__ == 'PathCollection']
    colours = [np.asarray(c.get_facecolors()) for c in ax.collections
               if type(c).__name__ == 'PathCollection']
    atoms = grid.atom_positions - silicon
    ctx.check(any(len(m) == len(atoms) and np.allclose(m, atoms, atol=1e-6) for m in markers),
              'map:atoms', where)
    ctx.check(any(len(m) == 1 and np.allclose(m, 0) for m in markers), 'map:silicon', where)
    three = [(m, c) for m, c in zip(markers, colours) if len(m) == 3]
    drawn = contours(ax)
    if (ctx.check(len(three) == 1, 'map:neighbours', where)
        and ctx.check(len(drawn) == 3, 'map:contours', lambda: f'{where}: {list(drawn)}')):
      for place, colour in zip(*three[0]):
        k = int(np.argmin(np.linalg.norm(neighbours - place, axis=1)))
        ctx.check(np.allclose(place, neighbours[k], atol=1e-5), 'map:neighbour',
                  lambda: f'{where}: {place}')
        names = [n for n in drawn if np.allclose(matplotlib.colormaps[n](1.0), colour)]
        if ctx.check(len(names) == 1, 'map:colour', lambda: f'{where}: {colour}'):
          # The highest contour is around the peak of the rate to this neighbour.
          points_ = np.concatenate([v for _, v in drawn[names[0]][-1:]])
          middle = highest(drawn[names[0]])
          near = int(np.argmin(np.linalg.norm(at * neighbours - middle, axis=1)))
          ctx.check(near == k, 'map:which',
                    lambda: f'{where}: {names[0]} around {middle}, {len(points_)} points, but is'
                            f' said to be neighbour {neighbours[k]}')
    ctx.check(np.allclose(ax.get_xlim(), extent) and np.allclose(ax.get_ylim(), extent),
              'map:limits', where)
    plt.close(fig)
    ctx.evaluated('map', of.__name__, case['angle'], case['centre'], case['order'], extent)
    ctx.state('map', of.__name__, case['angle'], case['centre'], case['order'], extent)
    ctx.step(points * points)
  ctx.trace()


def highest(found):
  """The middle of the highest contour."""
  collection, _ = found[-1]
  paths = [p for p in collection.get_paths() if len(p.vertices)]
  vertices = paths[-1].vertices
  return (vertices.min(0) + vertices.max(0)) / 2


def refused(ctx, case):
  """Grids without silicon."""
  from matplotlib import pyplot as plt
  from putting_dune import plotting_utils

  points = util.honeycomb(2)
  for numbers in ((6, 6), (6, 7)):
    kinds = np.full(len(points), 6)
    kinds[:2] = numbers
    grid = util.grid(points, kinds)
    for plot in (plotting_utils.plot_rate_function3,
                 plotting_utils.plot_rate_along_neighbor_vector3,
                 plotting_utils.plot_rate_along_arc3):
      fig, ax = axes()
      error = util.raises(plot, ax, Function(peaks, points[1:4]), grid)
      ctx.check(isinstance(error, ValueError), 'refused',
                lambda: f'{plot.__name__} with {numbers}: {error!r}')
      plt.close(fig)
      ctx.evaluated('refused', plot.__name__, numbers)
      ctx.state('refused', plot.__name__, numbers)
      ctx.step()
  ctx.trace()
