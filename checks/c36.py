"""C36: the experiment registry and the environments built from it."""

from mc import util

PROPERTY = 'C36'
LEVEL = 'model_checking'
RULE = (
    'every history of registrations and look-ups up to the depth (new names, used'
    ' names, built-in names, names of other kinds, unknown names) against a'
    ' dictionary; for every published experiment, its actions at every corner and'
    ' middle of the action space, its features, rates and agent against a table,'
    ' built twice to show that nothing is shared; environments for every'
    ' experiment, seed, limit and set of observers. A state is (known names) or'
    ' (experiment, action).'
)
ASSUMPTIONS = ['agents that need weights from the network are not built']

# name: (dwell range, reach in angstrom, features)
STATE, FRAME, PIXELS = 'state', 'frame', 'pixels'
BOND = 1.42
MICROSCOPE = {
    'relative_random': ((1.5, 1.5), BOND, STATE),
    'relative_random_long': ((1.0, 5.0), 2 * BOND, STATE),
    'relative_random_extra_long': ((1.0, 5.0), 3 * BOND, STATE),
    'greedy_on_neighbor': ((5.0, 5.0), None, FRAME),
    'greedy_short_of_neighbor': ((5.0, 5.0), None, FRAME),
    'greedy_on_neighbor_offset_horizontally': ((5.0, 5.0), None, FRAME),
    'greedy_from_learned_rates_v3': ((5.0, 5.0), None, FRAME),
    'greedy_from_learned_rates_v5': ((5.0, 5.0), None, FRAME),
    'ppo_simple_images_tf': ((1.5, 1.5), BOND, PIXELS),
    'ppo_learned_tf_2s': ((1.0, 10.0), BOND, STATE),
    'ppo_learned_tf_3s': ((1.0, 10.0), BOND, STATE),
    'ppo_learned_tf_4s': ((1.0, 10.0), BOND, STATE),
    'ppo_v3_2s': ((1.5, 20.0), 3 * BOND, STATE),
    'ppo_v3_3s': ((1.5, 20.0), 3 * BOND, STATE),
    'ppo_v3_4s': ((1.5, 20.0), 3 * BOND, STATE),
}
TRAIN = {
    'relative_simple_rates': ((1.5, 1.5), BOND, STATE),
    'relative_prior_rates': ((1.5, 1.5), BOND, STATE),
    'relative_simple_rates_from_images': ((1.5, 1.5), BOND, PIXELS),
    'relative_simple_rates_from_images_variable_time': ((1.0, 10.0), BOND, PIXELS),
    'direct_simple_rates_from_images': ((1.5, 1.5), 'direct', PIXELS),
}
EVAL = {
    'relative_random_simple': ((1.5, 1.5), BOND, STATE),
    'relative_random_prior_rates': ((1.5, 1.5), BOND, STATE),
    'ppo_simple_images_tf': ((1.5, 1.5), BOND, PIXELS),
}
TABLES = {'microscope': MICROSCOPE, 'train': TRAIN, 'eval': EVAL}
PEAKS = {
    'greedy_on_neighbor': (1.42, 0.0),
    'greedy_short_of_neighbor': (0.58, 0.0),
    'greedy_on_neighbor_offset_horizontally': (1.42, 0.42),
    'greedy_from_learned_rates_v3': (1.8686869, 0.0),
    'greedy_from_learned_rates_v5': (2.1717172, -0.15151516),
}


def cases(tier):
  for first in range(9):
    yield {'kind': 'history', 'first': first, 'depth': 4 if tier != 'quick' else 3}
  for kind, table in TABLES.items():
    for name in table:
      yield {'kind': 'published', 'registry': kind, 'name': name}
  for kind in ('train', 'eval'):
    for name in TABLES[kind]:
      yield {'kind': 'environment', 'registry': kind, 'name': name}


def run_case(ctx, case):
  globals()[case['kind']](ctx, case)


def history(ctx, case):
  from mc import core
  from putting_dune.experiments import experiments, registry

  builtin = registry.create_eval_experiment('relative_random_simple')
  fresh = [experiments.EvalExperiment(
      get_agent=lambda rng, ag, k=k: k, get_adapters_and_goal=lambda: None,
      get_simulator_config=lambda: None) for k in range(2)]
  number = [0]

  def lookup(kind, name):
    return getattr(registry, f'create_{kind}_experiment')(name)

  def run(chooser):
    number[0] += 1
    tag = f'verif_{case["first"]}_{number[0]}'
    names = [tag + '_a', tag + '_b']
    known = {}
    for k in range(case['depth']):
      c = chooser.choose('op', 9) if k else case['first']
      where = f'{case} {chooser.taken}'
      if c < 4:
        registry.register_eval_experiment(names[c // 2], fresh[c % 2])
        known.setdefault(names[c // 2], fresh[c % 2])
      elif c == 4:
        registry.register_eval_experiment('relative_random_simple', fresh[0])
      elif c == 5:
        # The other kinds have their own names.
        registry.register_eval_experiment('relative_random', fresh[1])
      elif c == 6:
        error = util.raises(lookup, 'eval', 'no_such_experiment')
        ctx.check(isinstance(error, ValueError), 'unknown', where)
      else:
        error = util.raises(lookup, ('train', 'microscope')[c - 7], names[0])
        ctx.check(isinstance(error, ValueError), 'other_kind', where)
      for name in names:
        if name in known:
          ctx.check(lookup('eval', name) is known[name], 'registered', where)
        else:
          ctx.check(isinstance(util.raises(lookup, 'eval', name), ValueError),
                    'not_registered', where)
        for kind in ('train', 'microscope'):
          ctx.check(isinstance(util.raises(lookup, kind, name), ValueError),
                    'leak', where)
      ctx.check(lookup('eval', 'relative_random_simple') is builtin, 'builtin', where)
      ctx.check(lookup('microscope', 'relative_random') is not fresh[1],
                'microscope', where)
      ctx.step()
      ctx.state(tuple(name in known for name in names),
                tuple(known[n] is fresh[0] for n in names if n in known), c)
    ctx.trace()

  for _ in core.explore(run):
    pass


def created(case):
  from putting_dune.experiments import registry

  return getattr(registry, f'create_{case["registry"]}_experiment')(case['name'])


def observe():
  import numpy as np

  p = util.honeycomb(3, angle=0.7)
  view = util.fov(-9.0, -6.0, 11.0, 9.0)
  relative = np.asarray(view.material_frame_to_microscope_frame(p))
  keep = ((relative > 0) & (relative < 1)).all(1)
  si = int(np.argmin(np.linalg.norm(p[keep], axis=1)))
  numbers = np.full(keep.sum(), 6)
  numbers[si] = 14
  image = np.linspace(0, 1, 64 * 48).reshape(64, 48, 1).astype(np.float32)
  return (util.observation(util.grid(relative[keep], numbers), view, (), 2.0,
                           image=image), p[keep], si)


def published(ctx, case):
  import itertools
  import numpy as np

  experiment = created(case)
  ctx.check(created(case) is experiment or created(case) == experiment, 'repeat', '')
  (lo, hi), reach, features = TABLES[case['registry']][case['name']]
  o, p, si = observe()
  given, twin = experiment.get_adapters_and_goal(), experiment.get_adapters_and_goal()
  for part in ('action_adapter', 'feature_constructor', 'goal'):
    ctx.check(getattr(given, part) is not getattr(twin, part), f'shared:{part}',
              case['name'])
  twin.goal.reset(np.random.default_rng(0), o)
  kept = np.array(twin.goal.goal_position_material_frame)
  for seed in range(1, 4):
    given.goal.reset(np.random.default_rng(seed), o)
  ctx.check(np.array_equal(kept, twin.goal.goal_position_material_frame),
            'shared:goal', case['name'])
  f = given.feature_constructor.get_features(o, given.goal)
  ctx.check((features == PIXELS) == isinstance(f, dict) and
            given.feature_constructor.requires_image == (features == PIXELS),
            'features:kind', case['name'])
  at = p[si] if features == FRAME else o.grid.atom_positions[si]
  if features != PIXELS:
    ctx.check(np.abs(np.asarray(f)[:2] - at).max() < 1e-5, 'features:frame',
              case['name'])
  spec = given.action_adapter.action_spec
  n = 3 if hi > lo else 2
  ctx.check(spec.shape == (n,), 'actions:shape', f'{case} {spec}')
  low, high = np.broadcast_to(spec.minimum, (n,)), np.broadcast_to(spec.maximum, (n,))
  for u in itertools.product((0.0, 0.3, 0.5, 1.0), repeat=n):
    action = (low + np.array(u) * (high - low)).astype(np.float32)
    (control,) = given.action_adapter.get_action(o, action)
    seconds = lo + (hi - lo) * u[2] if n == 3 else lo
    where = f'{case} {u}: {control.position} {control.dwell_time}'
    ctx.check(abs(control.dwell_time.total_seconds() - seconds) < 1e-4,
              'actions:dwell', where)
    got = np.array([control.position.x, control.position.y])
    size = np.array([o.fov.width, o.fov.height])
    if reach == 'direct':
      want = np.array(u[:2])
    else:
      scale = 1.0 if reach is None else reach
      want = o.grid.atom_positions[si] + action[:2] * scale / size
    ctx.check(np.abs(got - np.clip(want, 0, 1)).max() < 1e-5, 'actions:position',
              f'{where} {want}')
    ctx.state(case['registry'], case['name'], u)
    ctx.step()
  if case['name'] in PEAKS:
    import dm_env
    from checks import c37

    agent = experiment.get_agent(np.random.default_rng(3), given)
    obs = np.array([0, 0, 0, 1.4, 1.4, 0, -1, -1, 9, 0], np.float32)
    action = np.asarray(agent.step(c37.step_of(obs)))
    ctx.check(np.abs(action - PEAKS[case['name']]).max() < 1e-5, 'agent:peak',
              f'{case} {action}')
    obs[8:] = 0, 9
    action = np.asarray(agent.step(c37.step_of(obs)))
    x, y = PEAKS[case['name']]
    ctx.check(np.abs(action - [-y, x]).max() < 1e-5, 'agent:turned', f'{case} {action}')
    del dm_env
  if case['registry'] != 'microscope':
    config, other = experiment.get_simulator_config(), experiment.get_simulator_config()
    ctx.check(config.material is not other.material, 'shared:material', case['name'])
    ctx.check(config.image_duration.total_seconds() == 2, 'image_duration', case['name'])
  ctx.trace()


def environment(ctx, case):
  import numpy as np
  from mc import simlib
  from putting_dune import run_helpers

  import dataclasses
  import datetime as dt
  import dm_env

  experiment = created(case)
  # Without a limit given, an episode has 600 steps (20 minutes of imaging).
  env = run_helpers.create_putting_dune_env(
      4, get_adapters_and_goal=experiment.get_adapters_and_goal,
      get_simulator_config=experiment.get_simulator_config)
  ts = env.reset()
  stub = dm_env.transition(0.0, ts.observation, 0.9)
  env.environment.step = lambda action: stub
  for n in range(1, 601):
    ts = env.step(np.zeros(env.action_spec().shape, np.float32))
    ctx.check(ts.last() == (n == 600), 'environment:default_limit', f'{case} {n}')
  prior = 'prior' in case['name']
  direct = 'direct' in case['name']
  for seed in (0, 1, 5):
    for limit in (1, 2):
      for observers in (0, 1, 2):
        recorders = [simlib.Recorder() for _ in range(observers)]
        seconds = (2, 5)[observers % 2]

        def config():
          return dataclasses.replace(experiment.get_simulator_config(),
                                     image_duration=dt.timedelta(seconds=seconds))

        env = run_helpers.create_putting_dune_env(
            seed, get_adapters_and_goal=experiment.get_adapters_and_goal,
            get_simulator_config=config,
            simulator_observers=[r.observer for r in recorders], step_limit=limit)
        # It is that environment, but for the limit.
        inner = env.environment
        for name in ('action', 'observation', 'reward', 'discount'):
          ctx.check(repr(getattr(env, name + '_spec')()) ==
                    repr(getattr(inner, name + '_spec')()), 'environment:' + name, f'{case}')
        ctx.check(env.sim is inner.sim and env.goal is inner.goal,
                  'environment:attributes', f'{case}')
        ctx.check(isinstance(util.raises(getattr, env, 'nothing_like_it'), AttributeError),
                  'environment:unknown', f'{case}')
        ts = env.reset()
        env.reward_spec().validate(np.float64(ts.reward))
        env.discount_spec().validate(np.float64(ts.discount))
        first = util.snap([ts, env.last_microscope_observation])
        action = np.zeros(env.action_spec().shape, np.float32) + (0.5 if direct else 0)
        for k in range(limit):
          ts = env.step(action)
          ctx.check(ts.last() == (k == limit - 1) or (ts.last() and ts.discount == 0),
                    'environment:limit', f'{case} {seed} {limit} {k} {ts.step_type}')
          if ts.last():
            break
        logs = [r.take() for r in recorders]
        for log in logs:
          ctx.check([e[0] for e in log].count('control') == k + 1 and
                    log[0][0] == 'reset', 'environment:observers',
                    lambda: f'{case} {[e[0] for e in log]}')
          ctx.check(all(e[1].total_seconds() == seconds for e in log if e[0] == 'image'),
                    'environment:image_duration', f'{case}')
        env.close()
        env.seed(seed)
        ts = env.reset()
        ctx.check(util.same(first, util.snap([ts, env.last_microscope_observation])),
                  'environment:seed', f'{case} {seed}')
        # The rates of the material that was asked for.
        grid = env.sim.material.grid
        (si,) = simlib.si_index(grid)
        nb = simlib.by_angle(np.asarray(grid.atom_positions), si)
        at = np.asarray(grid.atom_positions[si])
        delta = np.asarray(grid.atom_positions)[nb[0]] - at
        beam = at + 0.85 * delta
        rates = env.sim.material._rate_function(grid, util.point(*beam))  # pylint: disable=protected-access
        top = max(float(s.rate) for s in rates.successor_states)
        want = np.log(2) / 3 if prior else 1 / (1 + (4 * 0.15) ** 2)
        ctx.check(abs(top - want) < 0.01 * want, 'environment:rates',
                  f'{case} {top} {want}')
        ctx.state('environment', case['registry'], case['name'], seed, limit, observers)
        ctx.step()
        ctx.trace()
