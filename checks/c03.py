"""C03: when a beam exposure makes the silicon move, and where to."""

from mc import util

PROPERTY = 'C03'
LEVEL = 'model_checking'
RULE = (
    'for every dwell time, every table of rates (equal, skewed, with zeros, tiny,'
    ' large, changing from state to state) and every sequence up to the depth of'
    ' unit-exponential draws placing the next transition early, late or just'
    ' around the end of the exposure: the real exposure is compared with the'
    ' kinetic Monte Carlo reference (times, number, order, notifications); for'
    ' every table, the successor distribution is read off by sweeping the'
    ' quantile. A state is (table, dwell, elapsed fraction, transitions so far).'
)
ASSUMPTIONS = [
    'waiting times and choices are drawn from the generator that is passed in'
    ' (exponential, standard_exponential, choice, random or integers)',
    'times are compared to within 2 microseconds per transition',
]

TABLES = {
    'equal': [[0.3, 0.3, 0.3]],
    'skewed': [[0.1, 0.2, 0.7]],
    'alternating': [[0.5, 0.0, 0.0], [0.0, 2.0, 0.25], [0.01, 0.02, 0.03]],
    'fast_then_slow': [[5.0, 5.0, 10.0], [0.05, 0.05, 0.05]],
    'tiny': [[1e-6, 2e-6, 1e-6]],
    'one_way': [[0.0, 0.0, 1.5]],
    'large': [[40.0, 80.0, 120.0]],
}
# The next transition happens at this fraction of the remaining exposure.
FRACTIONS = (0.0, 0.2, 0.999, 1.001, 3.0, 1e9)
DWELLS = (0.0, 0.25, 1.5, 10.0, 3599.0, 7200.0, 90000.0)


def cases(tier):
  depth = 3 if tier == 'quick' else 4
  for table in TABLES:
    for dwell in DWELLS:
      yield {'kind': 'times', 'table': table, 'dwell': dwell, 'depth': depth}
    yield {'kind': 'sweep', 'table': table, 'points': 60 if tier == 'quick' else 400}
  for dwell in DWELLS[:-1]:
    yield {'kind': 'zero', 'dwell': dwell}
  for rates in ('simple', 'gmm', 'prior'):
    yield {'kind': 'real', 'rates': rates, 'depth': 2 if tier == 'quick' else 3}
  for dwell in (1.5, 30.0):
    yield {'kind': 'chained', 'dwell': dwell}


def make(case, table=None):
  from mc import rng, simlib
  from putting_dune import graphene

  if table is None:
    fn = simlib.rate_functions()[case['rates']]
  else:
    fn = simlib.table_rates(lambda k, si: table[k % len(table)])
  material = graphene.PristineSingleDopedGraphene(rate_function=fn, grid_columns=14)
  material.reset(rng.ScriptedRng(uniforms=[0.4, 0.6, 0.1]))
  return material, fn


def run_case(ctx, case):
  return {
      'times': times, 'sweep': sweep, 'zero': zero, 'real': real,
      'chained': chained,
  }[case['kind']](ctx, case)


def times(ctx, case):
  """Scripted draws in units of the mean waiting time of the current state."""
  from mc import rng, simlib

  table, dwell = TABLES[case['table']], case['dwell']
  for fractions in util.sequences(FRACTIONS, case['depth'], case['depth']):
    if any(f > 1 for f in fractions[:-1]):
      # After the end nothing more is drawn; keep one representative.
      k = next(i for i, f in enumerate(fractions) if f > 1)
      if any(f != FRACTIONS[0] for f in fractions[k + 1:]):
        continue
    # Unit-exponential draws that put the transitions at these times.
    waits, now, want, si_moves = [], 0.0, [], 0
    ended = False
    for k, f in enumerate(fractions):
      total = float(sum(table[k % len(table)]))
      left, margin = max(dwell - now, 0.0), 1e-4 + 1e-5 * dwell
      gap = {0.0: 1e-5, 0.999: max(left - margin, 1e-5),
             1.001: left + margin}.get(f, f * left + (margin if f > 1 else 0.0))
      waits.append(gap * total)
      now += gap
      if not ended and now <= dwell and dwell > 0:
        want.append(now)
      else:
        ended = True
    quantiles = [0.31, 0.62, 0.93, 0.05, 0.5]
    m, fn = make(case, table)
    rec, other = simlib.Recorder(), simlib.Recorder()
    p = m.get_silicon_position()
    start = simlib.si_index(m.grid)[0]
    gen = rng.ScriptedRng(waits=waits, quantiles=quantiles)
    beam = (float(p.ravel()[0]) + 0.7, float(p.ravel()[1]) - 0.4)
    m.apply_control(gen, util.control(*beam, dwell), [rec.observer, other.observer])
    events = rec.take()
    ctx.step(max(len(want), 1))
    detail = f'table {table} dwell {dwell} fractions {fractions}: {[e[:2] for e in events]} want {want}'
    ctx.check(all(e[0] == 'transition' for e in events), 'unexpected_event', detail)
    got = [e[1].total_seconds() for e in events]
    ctx.check(len(got) == len(want), 'number_of_transitions', detail)
    tol = 2e-6 * (len(got) + 1) + 1e-6 * dwell
    ctx.check(
        all(abs(a - b) <= tol for a, b in zip(got, want)), 'times', detail)
    ctx.check(all(0 <= t <= dwell for t in got), 'outside_exposure', detail)
    ctx.check(len(other.take()) == len(events), 'observers', detail)
    # Every decision used the rates of the state it was made in.
    si = start
    for k, e in enumerate(events):
      call = fn.calls[k]
      ctx.check(call['si'] == si, 'rates_of_stale_state', detail)
      ctx.check(
          abs(call['beam'][0] - beam[0]) < 1e-6
          and abs(call['beam'][1] - beam[1]) < 1e-6, 'beam_position', detail)
      rates = call['rates']
      acc, pick = 0.0, None
      for j, r in zip(call['neighbours'], rates):
        acc += r
        if quantiles[k] < acc / sum(rates) and pick is None:
          pick = j
      margin = min(
          abs(quantiles[k] - sum(rates[: i + 1]) / sum(rates)) for i in range(3))
      if margin > 1e-3:
        # Any assignment of quantiles to successors is fine as long as the
        # successor is possible; the measure is decided by `sweep`.
        ctx.check(e[3] != [si] and len(e[3]) == 1 and e[3][0] in call['neighbours'],
                  'successor', detail)
        ctx.check(rates[call['neighbours'].index(e[3][0])] > 0,
                  'impossible_successor', detail)
      si = e[3][0]
    ctx.check(simlib.si_index(m.grid) == [si], 'final_state', detail)
    ctx.state(case['table'], dwell, fractions, len(got))
    ctx.outcome(f'transitions={len(got)}')
    ctx.trace()
  ctx.sample(case)


def sweep(ctx, case):
  """The measure of quantiles leading to each successor is its probability."""
  from mc import rng, simlib

  table, n = TABLES[case['table']], case['points']
  for row in range(len(table)):
    rates = table[row]
    counts = {}
    for i in range(n):
      m, fn = make(case, [rates])
      rec = simlib.Recorder()
      p = m.get_silicon_position().ravel()
      gen = rng.ScriptedRng(waits=[1e-6], quantiles=[(i + 0.5) / n])
      m.apply_control(gen, util.control(p[0], p[1], 100.0), [rec.observer])
      (event,) = rec.take()
      j = fn.calls[0]['neighbours'].index(event[3][0])
      counts[j] = counts.get(j, 0) + 1
      ctx.step()
      ctx.state(case['table'], row, i)
    for j in range(3):
      want = n * rates[j] / sum(rates)
      ctx.check(
          abs(counts.get(j, 0) - want) <= 1.01 and (rates[j] or not counts.get(j)),
          'probability', f'{rates}: successor {j} got {counts} of {n}')
    ctx.trace()
    ctx.outcome('sweep')


def zero(ctx, case):
  """Without any rate nothing happens, however long the exposure."""
  from mc import rng, simlib

  for wait in (1e-9, 0.5, 1.0, 50.0):
    m, _ = make(case, [[0.0, 0.0, 0.0]])
    before = util.snap(m.grid)
    rec = simlib.Recorder()
    p = m.get_silicon_position().ravel()
    m.apply_control(
        rng.ScriptedRng(waits=[wait] * 4, quantiles=[0.5] * 4),
        util.control(p[0], p[1], case['dwell']), [rec.observer])
    ctx.check(not rec.take() and util.same(util.snap(m.grid), before),
              'moved_without_rate', f'{case} {wait}')
    ctx.step()
    ctx.trace()
    ctx.state('zero', case['dwell'], wait)
  # A beam so far away that every rate underflows.
  for name in ('prior', 'gmm'):
    m, _ = make({'rates': name})
    rec = simlib.Recorder()
    m.apply_control(
        rng.ScriptedRng(waits=[0.3] * 4, quantiles=[0.5] * 4),
        util.control(900.0, -700.0, case['dwell']), [rec.observer])
    ctx.check(not rec.take(), 'moved_by_far_beam', f'{case} {name}')
    ctx.trace()
  ctx.outcome('zero')


def real(ctx, case):
  """Real rate functions: times follow the rates evaluated independently."""
  import numpy as np
  from mc import rng, simlib

  for units in util.sequences((0.02, 0.7, 3.0), case['depth'], case['depth']):
    for angle in (0.0, 1.1, 3.9):
      for quantile in (0.2, 0.55, 0.9):
        m, fn = make(case)
        p = m.get_silicon_position().ravel()
        beam = (p[0] + 0.9 * np.cos(angle), p[1] + 0.9 * np.sin(angle))
        dwell = 6.0
        rec = simlib.Recorder()
        grid = m.grid
        m.apply_control(
            rng.ScriptedRng(waits=units, quantiles=[quantile] * 9),
            util.control(*beam, dwell), [rec.observer])
        now = 0.0
        events = rec.take()
        for k, u in enumerate(units):
          rates = fn(grid, util.point(*beam))
          total = sum(float(s.rate) for s in rates.successor_states)
          now += u / total if total else 1e12
          if now > dwell - 1e-4:
            ctx.check(now < dwell + 1e-4 or len(events) == k,
                      'real:extra', f'{case} {units} {events} {now}')
            break
          ctx.check(len(events) > k, 'real:missing', f'{case} {units} {now}')
          ctx.check(abs(events[k][1].total_seconds() - now) < 1e-4,
                    'real:time', f'{case} {units} {events[k][:2]} {now}')
          grid = next(
              s.grid for s in rates.successor_states
              if simlib.si_index(s.grid) == events[k][3])
          ctx.step()
        ctx.state(case['rates'], units, angle, quantile, len(events))
        ctx.trace()
  ctx.outcome('real')


def chained(ctx, case):
  """Exposures are independent: each starts its own clock."""
  from mc import rng, simlib

  dwell = case['dwell']
  for fr in util.sequences((0.3, 0.8, 2.0), 3, 3):
    m, _ = make(case, [[0.5, 0.5, 1.0]])
    rec = simlib.Recorder()
    p = m.get_silicon_position().ravel()
    for f in fr:
      m.apply_control(
          rng.ScriptedRng(waits=[2.0 * f * dwell], quantiles=[0.4]),
          util.control(p[0], p[1], dwell), [rec.observer])
      events = rec.take()
      ctx.check(len(events) == (f < 1), 'chained:count', f'{case} {fr} {f}')
      if events:
        ctx.check(abs(events[0][1].total_seconds() - f * dwell) < 1e-5,
                  'chained:time', f'{events[0][1]} {f * dwell}')
      ctx.step()
    ctx.state('chained', dwell, fr)
    ctx.trace()
  ctx.outcome('chained')
