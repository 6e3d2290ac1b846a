"""C07: the event log replays to the state of the simulator."""

from mc import util

PROPERTY = 'C07'
LEVEL = 'model_checking'
RULE = (
    'every history of up to n operations out of: reset, exposures (none, one'
    ' with no/one/three moves, two controls), a run that re-centres the view,'
    ' each with or without an image, attaching or detaching a second log. The'
    ' reference predicts the whole sequence of events. A state is (operations'
    ' since reset, number of events).'
)
ASSUMPTIONS = ['moves of the silicon are scripted']

# name -> list of (bonds, dwell) per control, image requested
STEPS = {
    'nothing': ([], False),
    'still': ([(0, 1.5)], True),
    'one': ([(1, 0.5)], False),
    'three': ([(3, 2.0)], True),
    'two_controls': ([(1, 1.0), (2, 3.0)], False),
    'run': ([(9, 4.0)], True),
}
OPS = tuple(STEPS) + ('reset', 'reset_image', 'attach', 'detach')


def cases(tier):
  depth = 4 if tier != 'quick' else 3
  for i, first in enumerate(OPS):
    for second in OPS:
      yield {'ops': [first, second], 'depth': depth}


def run_case(ctx, case):
  import datetime as dt
  import numpy as np
  from checks import c04
  from mc import core, rng, simlib
  from putting_dune import graphene, simulator
  from putting_dune import simulator_observers as so

  image = dt.timedelta(seconds=2.25)
  T = so.SimulatorEventType

  def grid_key(g):
    return (np.array(g.atom_positions), np.array(g.atomic_numbers))

  def grids_equal(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))

  def history(chooser):
    mover = c04.Mover()
    log, late = so.EventObserver(), so.EventObserver()
    sim = simulator.PuttingDuneSimulator(
        graphene.PristineSingleDopedGraphene(rate_function=mover, grid_columns=26),
        image_duration=image, observers=(log,))
    truth = []  # ground truth of the moves, from a plain recorder
    rec = simlib.Recorder()
    sim.add_observer(rec.observer)
    del truth
    told = None  # the view that observers were told of last
    attached = False
    late_expected = []
    expected = []  # the reference log of this episode
    obs = None

    def reset(with_image, k):
      nonlocal obs, told
      rec.take()
      obs = sim.reset(rng.ScriptedRng(
          uniforms=[0.3, 0.7, (0.17 * k) % 1, 0.1]), with_image)
      views = [e[-1] for e in rec.take() if e[0] in ('reset', 'fov')]
      told = views[-1] if views else None
      ctx.check(told == tuple(simlib.box(obs.fov)), 'view:reset', f'{views} {obs.fov}')
      out = [(T.RESET, grid_key(sim.material.grid), simlib.box(obs.fov)),
             (T.TAKE_IMAGE, image, simlib.box(obs.fov))]
      if with_image:
        out.append((T.GENERATED_IMAGE, np.array(obs.image)))
      return out

    def step(name, k):
      nonlocal obs, told
      spec, with_image = STEPS[name]
      before = simlib.box(obs.fov)
      mover.direction = 0.9 + 2.1 * k
      controls = [util.control(0.4 + 0.05 * i, 0.55, d)
                  for i, (_, d) in enumerate(spec)]
      # Each control gets its own number of moves: replayed through one script
      # in which a long wait ends the exposure.
      waits = []
      for i, (bonds, _) in enumerate(spec):
        waits += [0.01] * bonds + [1e6]
      rec.take()
      obs = sim.step_and_image(
          rng.ScriptedRng(waits=waits, quantiles=[0.5] * 40), controls, with_image)
      seen = rec.take()
      moves = [e for e in seen if e[0] == 'transition']
      out = []
      for c, (bonds, _) in zip(controls, spec):
        pos = before[:2] + np.array([c.position.x, c.position.y]) * (
            before[2:] - before[:2])
        out.append((T.APPLY_CONTROL, c.dwell_time, pos))
        for j in range(bonds):
          e = moves.pop(0)
          out.append((T.TRANSITION, (j + 1) * 0.01, e[2]))
      after = simlib.box(obs.fov)
      ctx.check(not moves, 'harness:moves', f'{name}')
      # Observers always know the view, and hear of a new one before its image.
      for e in seen:
        if e[0] == 'fov':
          told = e[1]
        elif e[0] == 'image':
          ctx.check(e[2] == told, 'view:image', lambda: f'{name} {told} {e}')
      ctx.check(told == tuple(after), 'view:step', lambda: f'{name} {told} {after}')
      out.append((T.TAKE_IMAGE, image, before))
      if not np.array_equal(before, after):
        out.append((T.TAKE_IMAGE, image, after))
        ctx.outcome('recentred')
      if with_image:
        out.append((T.GENERATED_IMAGE, np.array(obs.image)))
      return out

    def verify(observer, want, where):
      events = observer.events
      ctx.check(
          [e.event_type for e in events] == [w[0] for w in want], 'sequence',
          lambda: f'{where} got {[e.event_type.name for e in events]} want '
          f'{[w[0].name for w in want]}')
      for e, w in zip(events, want):
        d = e.event_data
        if w[0] == T.RESET:
          ok = grids_equal(grid_key(d['grid']), w[1]) and np.array_equal(
              simlib.box(d['fov']), w[2])
        elif w[0] == T.TRANSITION:
          ok = abs(d['time_since_control_was_applied'].total_seconds() - w[1]) < (
              2e-5) and grids_equal(grid_key(d['grid']), w[2])
        elif w[0] == T.APPLY_CONTROL:
          ok = d['dwell_time'] == w[1] and np.allclose(
              [d['position'].x, d['position'].y], w[2], atol=1e-9)
        elif w[0] == T.TAKE_IMAGE:
          ok = d['duration'] == w[1] and np.array_equal(simlib.box(d['fov']), w[2])
        else:
          ok = np.array_equal(np.array(d['image']), w[1])
        ctx.check(ok, 'event:' + w[0].name.lower(), f'{where} {d} {w[1:]}')
      # The log replays to the state of the material.
      if want:
        grids = [e.event_data['grid'] for e in events
                 if e.event_type in (T.RESET, T.TRANSITION)]
        if grids and observer is log:
          ctx.check(grids_equal(grid_key(grids[-1]), grid_key(sim.material.grid)),
                    'replay', where)

    expected = reset(False, 0)
    verify(log, expected, 'start')
    for k in range(case['depth']):
      op = case['ops'][k] if k < len(case['ops']) else (
          OPS[chooser.choose('op', len(OPS))])
      where = f'{case["ops"]} {chooser.taken} {k}'
      if op == 'attach':
        if not attached:
          sim.add_observer(late)
          attached = True
      elif op == 'detach':
        if attached:
          sim.remove_observer(late)
          attached = False
      elif op in ('reset', 'reset_image'):
        expected = reset(op == 'reset_image', k + 1)
        if attached:
          late_expected = list(expected)
      else:
        n = len(expected)
        total = obs
        new = step(op, k)
        expected = expected + new
        if attached:
          late_expected = late_expected + new
        spent = sum((w[1].total_seconds() for w in new
                     if w[0] in (T.APPLY_CONTROL, T.TAKE_IMAGE)), 0.0)
        ctx.check(abs(spent - obs.elapsed_time.total_seconds()) < 1e-6,
                  'elapsed', f'{where} {spent} {obs.elapsed_time}')
        del n, total
      verify(log, expected, where)
      verify(late, late_expected, where + ' late')
      ctx.state(op, len(expected), len(late_expected), attached)
      ctx.step()
    ctx.trace()

  for _ in core.explore(history):
    pass
