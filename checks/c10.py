"""C10: what an action does to the beam."""

from mc import util

PROPERTY = 'C10'
LEVEL = 'model_checking'
RULE = (
    'for every adapter, dwell range and reach: every observation (silicon at the'
    ' centre, corners and borders of the view; square, oblong and distant views;'
    ' none or two silicon atoms) and every action of a grid (inside, on and'
    ' beyond the bounds, in single and double precision), against formulas; for'
    ' the beam-moving adapter every sequence of moves up to the depth, with'
    ' resets. A state is (adapter, observation, action) or (beam position).'
)
ASSUMPTIONS = ['positions are compared to within 1e-6 of the view']

VIEWS = ((0, 0, 20, 20), (-7.5, 3.0, 12.5, 43.0), (5000.0, -400.0, 5016.0, -375.0))
SPOTS = ((0.5, 0.5), (0.31, 0.72), (0.0, 1.0), (0.995, 0.004), (1.0, 0.5))
VALUES = (-2.5, -1.0, -0.3, 0.0, 0.45, 1.0, 1.5)
DWELLS = ((1.5, 1.5), (1.0, 10.0), (0.0, 0.25))
REACHES = (1.42, 2.84, 0.7)


def cases(tier):
  for v in range(len(VIEWS)):
    for dtype in ('float32', 'float64'):
      yield {'kind': 'direct', 'view': v, 'dtype': dtype}
      for dwell in range(len(DWELLS)):
        for kind in ('relative', 'material'):
          for reach in REACHES if kind == 'relative' else REACHES[:2]:
            yield {'kind': kind, 'view': v, 'dtype': dtype, 'dwell': dwell,
                   'reach': reach}
  for first in range(6):
    for start in ((0.5, 0.5), (0.02, 0.97), (0.0, 1.0)):
      yield {'kind': 'delta', 'first': first, 'start': list(start),
             'depth': 6 if tier != 'quick' else 5}
  for adapter in ('relative', 'material', 'delta', 'direct'):
    for first in range(4):
      yield {'kind': 'environment', 'adapter': adapter, 'first': first,
             'depth': 3 if tier == 'quick' else 4}
  yield {'kind': 'specs'}
  for kind in ('relative', 'material'):
    yield {'kind': 'errors', 'adapter': kind}


def observe(view, spots, dtype=float, others=True):
  import numpy as np

  p = [(0.2, 0.3), (0.9, 0.9)] * others + list(spots)
  n = [6, 6] * others + [14] * len(spots)
  # The silicon need not come last.
  order = list(range(len(p)))[::-1]
  return util.observation(
      util.grid(np.array([p[i] for i in order], dtype).reshape(-1, 2),
                np.array([n[i] for i in order], int)), util.fov(*view))


def environment(ctx, case):
  """Every step of an environment applies what the adapter makes of its action."""
  import copy
  import numpy as np
  from checks import c04
  from mc import core, simlib

  new = simlib.adapters()[case['adapter']]

  def history(chooser):
    mover = c04.Mover()
    adapter = new()
    env, material = simlib.scripted_env(mover, adapter, simlib.features()['view']())
    env.seed(11)
    rec = simlib.Recorder(keep_grids=False)
    ts = env.reset()
    env.sim.add_observer(rec.observer)
    for k in range(case['depth']):
      c = chooser.choose('step', 4) if k else case['first']
      ctx.state(case['adapter'], k, c)
      if c == 3 or ts.last():
        ts = env.reset()
        continue
      mover.direction = 0.4 + 1.1 * k
      material.waits = [1e-4] * (0, 1, 9)[c]
      spec = env.action_spec()
      action = np.linspace(0.9 - 0.3 * k, 0.1 * c, spec.shape[0]).astype(np.float32)
      before = env.last_microscope_observation
      want = copy.deepcopy(adapter).get_action(before, action.copy())
      rec.take()
      ts = env.step(action)
      got = env.last_microscope_observation.controls
      where = lambda: f'{case} {chooser.taken}: {got} instead of {want}'
      ctx.check(len(got) == len(want) == 1 and abs(got[0].position.x - want[0].position.x) < 1e-5
                and abs(got[0].position.y - want[0].position.y) < 1e-5
                and got[0].dwell_time == want[0].dwell_time, 'environment:controls', where)
      lo, hi = np.array(simlib.box(before.fov)).reshape(2, 2)
      if case['adapter'] in ('relative', 'material'):
        # Also by formula, since what is compared with may be as wrong as it.
        reach = np.clip(action[:2], -1, 1) * 1.42 if case['adapter'] == 'relative' else action[:2]
        z = np.asarray(before.grid.atomic_numbers)
        at = np.asarray(before.grid.atom_positions)[z == 14][0] + reach / (hi - lo)
        ctx.check(abs(got[0].position.x - np.clip(at[0], 0, 1)) < 1e-5 and
                  abs(got[0].position.y - np.clip(at[1], 0, 1)) < 1e-5 and
                  abs(got[0].dwell_time.total_seconds() - 1 - 8 * np.clip(action[2], 0, 1)) < 1e-5
                  , 'environment:formula', lambda: f'{case} {chooser.taken}: {got}, not at {at}')
      applied = [e for e in rec.take() if e[0] == 'control']
      at = lo + np.array([want[0].position.x, want[0].position.y]) * (hi - lo)
      ctx.check(len(applied) == 1 and np.abs(np.asarray(applied[0][1]) - at).max() < 1e-3 and
                applied[0][2] == want[0].dwell_time, 'environment:applied',
                lambda: f'{case} {chooser.taken}: {applied} instead of {at}')
      ctx.step()
    ctx.trace()

  for _ in core.explore(history):
    pass


def one(ctx, controls, where):
  ctx.check(len(controls) == 1, 'number_of_controls', f'{where} {controls}')
  return controls[0]


def verify(ctx, control, x, y, dwell, where):
  ctx.check(abs(control.position.x - x) < 1e-6 and abs(control.position.y - y) < 1e-6,
            'position', lambda: f'{where} {control.position} want {x} {y}')
  ctx.check(abs(control.dwell_time.total_seconds() - dwell) < 3e-6, 'dwell',
            lambda: f'{where} {control.dwell_time} want {dwell}')


def clip(x, lo, hi):
  return min(max(x, lo), hi)


def run_case(ctx, case):
  import datetime as dt
  import numpy as np
  from putting_dune import action_adapters as aa

  kind = case['kind']
  if kind == 'delta':
    return delta(ctx, case)
  if kind == 'environment':
    return environment(ctx, case)
  if kind == 'specs':
    return specs(ctx)
  if kind == 'errors':
    cls = {'relative': aa.RelativeToSiliconActionAdapter,
           'material': aa.RelativeToSiliconMaterialFrameActionAdapter}[case['adapter']]
    for view in VIEWS:
      for spots in ((), ((0.5, 0.5), (0.2, 0.1)), ((0.1, 0.1),) * 3):
        for others in (True, False):
          error = util.raises(cls().get_action, observe(view, spots, others=others),
                              np.zeros(2, np.float32))
          ctx.check(isinstance(error, RuntimeError), 'accepted_without_one_silicon',
                    f'{case} {spots} {error!r}')
          ctx.state('errors', case['adapter'], view, spots, others)
          ctx.step()
    ctx.trace()
    return

  view = VIEWS[case['view']]
  w, h = view[2] - view[0], view[3] - view[1]
  if kind == 'direct':
    adapter = aa.DirectActionAdapter()
    lo = hi = 1.5
  else:
    lo, hi = DWELLS[case['dwell']]
    cls = {'relative': aa.RelativeToSiliconActionAdapter,
           'material': aa.RelativeToSiliconMaterialFrameActionAdapter}[kind]
    adapter = cls(
        dwell_time_range=(dt.timedelta(seconds=lo), dt.timedelta(seconds=hi)),
        max_distance_angstroms=case['reach'])
  for spot in SPOTS:
    obs = observe(view, [spot])
    before = util.snap(obs)
    for ax in VALUES:
      for ay in VALUES:
        for at in ((None,) if lo == hi else (-0.5, 0.0, 0.3, 1.0, 1.7)):
          action = np.array([ax, ay] + ([] if at is None else [at]), case['dtype'])
          kept = action.copy()
          adapter.reset()
          control = one(ctx, adapter.get_action(obs, action), case)
          if kind == 'direct':
            x, y = clip(ax, 0, 1), clip(ay, 0, 1)
          elif kind == 'relative':
            x = clip(spot[0] + clip(ax, -1, 1) * case['reach'] / w, 0, 1)
            y = clip(spot[1] + clip(ay, -1, 1) * case['reach'] / h, 0, 1)
          else:
            x = clip(spot[0] + ax / w, 0, 1)
            y = clip(spot[1] + ay / h, 0, 1)
          dwell = lo if at is None else lo + clip(at, 0, 1) * (hi - lo)
          verify(ctx, control, x, y, dwell, f'{case} {spot} {action}')
          ctx.check((action == kept).all(), 'action_modified', f'{case}')
          ctx.step()
      ctx.state(kind, case, spot, ax)
    ctx.check(util.same(before, util.snap(obs)), 'observation_modified', f'{case}')
    ctx.trace()
  ctx.outcome(kind)


def delta(ctx, case):
  import numpy as np
  from mc import core, rng
  from putting_dune import action_adapters as aa

  moves = ((0.1, 0.0), (-0.1, 0.1), (0.03, -0.07), (0.6, -0.7), (-0.2, 0.0))
  obs = observe(VIEWS[0], [(0.5, 0.5)])

  def history(chooser):
    start = case['start']
    adapter = aa.DeltaPositionActionAdapter(rng.ScriptedRng(uniforms=start * 20))
    x, y = start
    for k in range(case['depth']):
      c = chooser.choose('move', len(moves) + 1) if k else case['first']
      where = f'{case} {chooser.taken}'
      if c == len(moves):
        adapter.reset()
        x, y = start
        continue
      action = np.array(moves[c], np.float32 if k % 2 else np.float64)
      kept = action.copy()
      control = one(ctx, adapter.get_action(obs, action), where)
      x, y = clip(x + moves[c][0], 0, 1), clip(y + moves[c][1], 0, 1)
      verify(ctx, control, x, y, 1.5, where)
      ctx.check((action == kept).all(), 'action_modified', where)
      ctx.state('delta', round(x, 4), round(y, 4))
      ctx.step()
    ctx.trace()

  for _ in core.explore(history):
    pass
  ctx.outcome('delta')


def specs(ctx):
  import datetime as dt
  import numpy as np
  from putting_dune import action_adapters as aa

  s = dt.timedelta
  expected = [
      (aa.DirectActionAdapter(), [0, 0], [1, 1]),
      (aa.DeltaPositionActionAdapter(np.random.default_rng(0)), [-.1, -.1], [.1, .1]),
  ]
  for cls in (aa.RelativeToSiliconActionAdapter,
              aa.RelativeToSiliconMaterialFrameActionAdapter):
    expected.append((cls(), [-1, -1], [1, 1]))
    expected.append((cls(dwell_time_range=(s(seconds=2), s(seconds=2))),
                     [-1, -1], [1, 1]))
    expected.append((cls(dwell_time_range=(s(seconds=2), s(seconds=3))),
                     [-1, -1, 0], [1, 1, 1]))
  for adapter, lo, hi in expected:
    spec = adapter.action_spec
    ctx.check(spec.shape == (len(lo),) and spec.dtype == np.float32, 'spec:shape',
              f'{spec}')
    ctx.check(np.allclose(np.broadcast_to(spec.minimum, spec.shape), lo) and
              np.allclose(np.broadcast_to(spec.maximum, spec.shape), hi),
              'spec:bounds', f'{spec}')
    ctx.state('spec', type(adapter).__name__, lo)
    ctx.step()
  ctx.trace()
