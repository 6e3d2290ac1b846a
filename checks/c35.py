"""C35: the formatted time, the plotted frames and the video of an episode."""

from mc import util

PROPERTY = 'C35'
LEVEL = 'model_checking'
RULE = (
    'every duration of a set around each rounding and carrying boundary, up to'
    ' hours; every grid, frame, goal, beam and view of a set, plotted and read'
    ' back from the axes; every sequence of simulator events up to the depth'
    ' (exposures with transitions, images, moved views, generated images),'
    ' turned into a video whose frames are read back while it is written, against'
    ' a replay of the events. A state is the duration or the event sequence.'
)
ASSUMPTIONS = [
    'an episode begins with one reset and has at least one exposure',
    'durations are not negative',
]

EVENTS = ('expose', 'move', 'double', 'still', 'image', 'recentre', 'generate')


def cases(tier):
  for hour in range(0, 6):
    yield {'kind': 'format', 'hour': hour}
  for k in range(4):
    yield {'kind': 'plot', 'k': k}
  depth = 3 if tier == 'quick' else 4
  for first in util.sequences(range(len(EVENTS)), 2 if tier == 'quick' else 3, 1):
    if len(first) == (1 if tier == 'quick' else 3) or tier != 'quick' and len(first) < 3:
      yield {'kind': 'video', 'prefix': list(first),
             'extend': 0 if tier != 'quick' and len(first) < 3 else (
                 depth - len(first) if tier != 'quick' else 2)}
  yield {'kind': 'file'}


def run_case(ctx, case):
  import matplotlib

  matplotlib.use('Agg')
  from matplotlib import pyplot as plt

  try:
    globals()[{'format': 'formats', 'file': 'through_observer'}.get(case['kind'], case['kind'])](
        ctx, case)
  finally:
    plt.close('all')


def formats(ctx, case):
  import datetime as dt
  from putting_dune import plotting_utils

  hundredths = set()
  for minute in (0, 1, 9, 10, 59) if case['hour'] else range(60):
    for second in (0, 1, 9, 10, 30, 59):
      for h in (0, 1, 9, 10, 49, 50, 98, 99):
        hundredths.add(((case['hour'] * 20 + minute) * 60 + second) * 100 + h)
  for h in sorted(hundredths):
    for micro in (0, 1, 4999, 5001, 9999):
      total = h * 10000 + micro
      got = plotting_utils.format_timedelta(dt.timedelta(microseconds=total))
      n = (total + 5000) // 10000
      want = f'{n // 6000:02d}:{n // 100 % 60:02d}:{n % 100:02d}'
      ctx.check(got == want, 'format', f'{total} us: {got} instead of {want}')
      ctx.step()
    ctx.state('format', h)
  ctx.trace()


def shown(ax):
  """The contents of an axes: point sets, lines by length, texts."""
  import numpy as np

  sets = [np.asarray(line.get_xydata(), float).reshape(-1, 2) for line in ax.lines]
  # A collection keeps its points in its offsets.
  for c in ax.collections:
    sets.append(np.asarray(c.get_offsets(), float).reshape(-1, 2))
  return sets, [t.get_text() for t in ax.texts]


def has(sets, points):
  """Whether one of the sets holds exactly these points, in any order."""
  import numpy as np

  want = np.asarray(points, float).reshape(-1, 2)
  for s in sets:
    if s.shape == want.shape and (len(want) == 0 or np.abs(
        s[np.lexsort(s.round(6).T)] - want[np.lexsort(want.round(6).T)]).max() < 1e-6):
      return True
  return False


def check_axes(ctx, ax, grid, goal, control, time, view, where, sig):
  import numpy as np

  sets, texts = shown(ax)
  p, n = np.asarray(grid.atom_positions), np.asarray(grid.atomic_numbers)
  ctx.check(has(sets, p[n == 6]), sig + ':carbon', where)
  ctx.check(has(sets, p[n == 14]), sig + ':silicon', where)
  expected = 2
  for name, thing in (('goal', goal), ('control', control)):
    if thing is not None:
      expected += 1
      ctx.check(has(sets, [thing]), sig + ':' + name, lambda: f'{where} {thing} {sets}')
  if view is not None:
    expected += 1
    x0, y0, x1, y1 = view
    ctx.check(has(sets, [(x0, y0), (x1, y0), (x1, y1), (x0, y1), (x0, y0)]),
              sig + ':view', lambda: f'{where} {view} {sets}')
  ctx.check(len(sets) == expected, sig + ':extra', lambda: f'{where} {sets}')
  ctx.check(texts == ([] if time is None else [time]), sig + ':time',
            f'{where} {texts} instead of {time}')


def corners(f):
  return (f.lower_left.x, f.lower_left.y, f.upper_right.x, f.upper_right.y)


def plot(ctx, case):
  import datetime as dt
  import itertools
  import numpy as np
  from matplotlib import pyplot as plt
  from putting_dune import plotting_utils

  k = case['k']
  p = util.honeycomb(2, angle=0.2 * k, centre=(5.0 * k, -3.0))
  numbers = np.full(len(p), 6)
  if k == 1:
    numbers[0] = 14
  if k == 2:
    numbers[[0, 5]] = 14
  if k == 3:
    numbers[:] = 14
  for goal, control, time, view in itertools.product(
      (None, (4.0, 1.0)), (None, (0.5, -2.5)), (None, 71.234), (None, (0, -5, 10, 5))):
    time = None if time is None else dt.timedelta(seconds=time)
    text = None if time is None else '01:11:23'
    arrays = [None if v is None else np.array(v) for v in (goal, control)]
    where = f'{case} {goal} {control} {time} {view}'
    fig, ax = plt.subplots()
    g = util.grid(p, numbers)
    before = util.snap(g)
    f = None if view is None else util.fov(*view)
    plotting_utils.plot_material_frame(ax, g, *arrays, time, f)
    check_axes(ctx, ax, g, goal, control, text, view, where, 'material')
    lo, hi = p.min(0), p.max(0)
    pad = 0.05 * (hi - lo)
    ctx.check(util.close(ax.get_xlim(), (lo[0] - pad[0], hi[0] + pad[0]), 1e-6) and
              util.close(ax.get_ylim(), (lo[1] - pad[1], hi[1] + pad[1]), 1e-6),
              'material:limits', where)
    plt.close(fig)
    fig, ax = plt.subplots()
    plotting_utils.plot_microscope_frame(ax, g, *arrays, time)
    check_axes(ctx, ax, g, goal, control, text, None, where, 'microscope')
    ctx.check(tuple(ax.get_xlim()) == (0, 1) and tuple(ax.get_ylim()) == (0, 1),
              'microscope:limits', where)
    plt.close(fig)
    ctx.check(util.same(before, util.snap(g)), 'plot:modified', where)
    ctx.state('plot', k, goal, control, time, view)
    ctx.step()
  ctx.trace()


def frames_of(video):
  """What is shown on each frame, read while the video is written."""
  from matplotlib import animation

  pages = []

  class Reader(animation.AbstractMovieWriter):

    def setup(self, fig, outfile, dpi=None):
      super().setup(fig, outfile, dpi)

    def grab_frame(self, **kwargs):
      page = []
      for ax in self.fig.axes:
        sets, texts = shown(ax)
        page.append((sets, texts, [image.get_array() for image in ax.images]))
      pages.append(page)

    def finish(self):
      pass

  video.save('nowhere.mp4', writer=Reader(), dpi=20)
  return pages


class Holder:
  """An axes as it was read."""

  def __init__(self, page):
    self.page = page


def verify_video(ctx, events, goal, where):
  """Replays the events and compares every frame."""
  import datetime as dt
  import numpy as np
  from putting_dune import plotting_utils
  from putting_dune import simulator_observers as so

  T = so.SimulatorEventType
  want = []
  grid = view = beam = image = None
  time = dt.timedelta(0)
  for e in events:
    d = e.event_data
    if e.event_type == T.RESET:
      grid, view = d['grid'], d['fov']
    elif e.event_type == T.APPLY_CONTROL:
      beam = (d['position'].x, d['position'].y)
      want.append((grid, view, beam, image, time))
      time = time + d['dwell_time']
    elif e.event_type == T.TRANSITION:
      grid = d['grid']
    elif e.event_type == T.TAKE_IMAGE:
      view = d['fov']
      time = time + d['duration']
    elif e.event_type == T.GENERATED_IMAGE:
      image = d['image']
  want.append((grid, view, beam, image, time))

  before = util.snap(events)
  pages = frames_of(plotting_utils.generate_video_from_simulator_events(
      events, np.array(goal)))
  ctx.check(util.same(before, util.snap(events)), 'video:modified', where)
  ctx.check(len(pages) == len(want), 'video:frames', f'{where}: {len(pages)} {len(want)}')
  panels = 3 if image is not None else 2
  for i, (page, (grid, view, beam, image, time)) in enumerate(zip(pages, want)):
    at = f'{where} frame {i}'
    ctx.check(len(page) == panels, 'video:panels', f'{at}: {len(page)}')
    p, n = np.asarray(grid.atom_positions), np.asarray(grid.atomic_numbers)
    x0, y0, x1, y1 = corners(view)
    lo, size = np.array([x0, y0]), np.array([x1 - x0, y1 - y0])
    sets, texts, _ = page[0]
    for name, points in (
        ('carbon', p[n == 6]), ('silicon', p[n == 14]), ('goal', [goal]), ('beam', [beam]),
        ('view', [(x0, y0), (x1, y0), (x1, y1), (x0, y1), (x0, y0)])):
      ctx.check(has(sets, points), 'video:material:' + name,
                lambda: f'{at} {points} not in {sets}')
    ms = round(time.total_seconds() * 100)
    ctx.check(texts == [f'{ms // 6000:02d}:{ms // 100 % 60:02d}:{ms % 100:02d}'],
              'video:time', f'{at}: {texts} {time}')
    sets, texts, _ = page[1]
    for name, points in (
        ('carbon', p[n == 6]), ('silicon', p[n == 14]), ('goal', [goal]), ('beam', [beam])):
      points = (np.asarray(points, float).reshape(-1, 2) - lo) / size
      ctx.check(has(sets, points), 'video:microscope:' + name,
                lambda: f'{at} {points} not in {sets}')
    if panels == 3:
      images = page[2][2]
      ctx.check(len(images) == (0 if image is None else 1), 'video:image', f'{at} {images}')
      if image is not None:
        ctx.check(np.array_equal(np.asarray(images[0]), np.asarray(image)),
                  'video:image', at)
    ctx.step()


def script(names):
  """The events of an episode made of these parts."""
  import datetime as dt
  import numpy as np
  from putting_dune import simulator_observers as so

  T = so.SimulatorEventType
  p = util.honeycomb(2, angle=0.3)[:14]
  at = 0
  moves = 0
  view = util.fov(-5, -4, 5, 4)

  def sheet():
    numbers = np.full(len(p), 6)
    numbers[at] = 14
    return util.grid(p, numbers)

  events = [so.SimulatorEvent(T.RESET, {'grid': sheet(), 'fov': view})]
  for i, name in enumerate(names):
    if name in ('expose', 'move', 'double', 'still'):
      dwell = 0.0 if name == 'still' else 1.5 + 0.77 * i
      events.append(so.SimulatorEvent(T.APPLY_CONTROL, {
          'dwell_time': dt.timedelta(seconds=dwell),
          'position': util.point(0.3 * i - 1.0, 0.5 + 0.1 * i)}))
      for _ in range({'move': 1, 'double': 2}.get(name, 0)):
        moves += 1
        at = (at + 1) % 4
        events.append(so.SimulatorEvent(T.TRANSITION, {
            'time_since_control_was_applied': dt.timedelta(seconds=0.2 * moves),
            'grid': sheet()}))
    elif name == 'generate':
      events.append(so.SimulatorEvent(
          T.GENERATED_IMAGE, {'image': np.full((3, 4), 20 + i, np.uint8)}))
    else:
      if name == 'recentre':
        view = util.fov(-5 + i, -4, 5 + i, 4.5)
      events.append(so.SimulatorEvent(
          T.TAKE_IMAGE, {'duration': dt.timedelta(seconds=2.0 + i), 'fov': view}))
  return events


def video(ctx, case):
  from matplotlib import pyplot as plt

  for rest in util.sequences(range(len(EVENTS)), case['extend']):
    names = [EVENTS[i] for i in case['prefix'] + list(rest)]
    if not set(names) & {'expose', 'move', 'double', 'still'}:
      continue
    verify_video(ctx, script(names), (2.0, -1.5), names)
    plt.close('all')
    ctx.state('video', tuple(names))
    ctx.trace()


def through_observer(ctx, case):
  """The events of a real simulator."""
  import datetime as dt
  import numpy as np
  from mc import rng as rng_lib
  from putting_dune import graphene
  from putting_dune import simulator
  from putting_dune import simulator_observers as so

  for image in (False, True):
    rng = rng_lib.ScriptedRng(waits=[0.2, 0.3, 9.0] * 4, quantiles=[0.1, 0.5, 0.9] * 8, seed=1)
    material = graphene.PristineSingleDopedGraphene(
        rate_function=graphene.PristineSingleSiGrRatePredictor(
            canonical_rate_prediction_fn=graphene.simple_canonical_rate_function),
        grid_columns=10)
    observer = so.EventObserver()
    sim = simulator.PuttingDuneSimulator(material, observers=(observer,))
    sim.reset(rng, return_image=image)
    for k in range(3):
      sim.step_and_image(rng, [util.control(0.5 + 0.02 * k, 0.5, 4.0)], return_image=image)
    verify_video(ctx, observer.events, (3.0, 3.0), f'simulator {image}')
    ctx.state('simulator', image)
    ctx.trace()
