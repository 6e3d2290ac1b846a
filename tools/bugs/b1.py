"""First batch of planted bugs: python3 -m tools.bugs.b1 (from /verif)."""
from tools.plant import plant

RATES = '''
import datetime as dt, sys
import numpy as np
from putting_dune import geometry, graphene, goals, microscope_utils as mu, simulator

class Rng(np.random.Generator):
  """Answers exponential draws with waits * scale."""
  def __init__(self, waits, seed=0):
    super().__init__(np.random.PCG64(seed)); self.waits = list(waits); self.scales = []
  def exponential(self, scale=1.0, size=None):
    self.scales.append(float(scale))
    return float(scale) * (self.waits.pop(0) if self.waits else 1e9)

def control(x, y, seconds):
  return mu.BeamControl(geometry.Point(x, y), dt.timedelta(seconds=seconds))

class Log(mu.SimulatorObserver):
  def __init__(self): self.moves = []; self.fovs = []; self.images = []
  def observe_transition(self, time_since_control_was_applied, grid):
    self.moves.append((time_since_control_was_applied.total_seconds(), grid))
  def observe_fov_change(self, fov): self.fovs.append(fov)
  def observe_take_image(self, duration, fov): self.images.append(duration)
'''

plant('c03_stale_total_rate', 'C03',
  'an exposure during which the silicon moves at least twice, so that the total rate changes within the exposure',
  'the waiting time of the second and later moves of one exposure is drawn with the total rate of the state before the exposure',
  [('graphene.py', '    elapsed_time = dt.timedelta(seconds=0)\n    while elapsed_time < control.dwell_time:\n',
    '    elapsed_time = dt.timedelta(seconds=0)\n    mean_seconds = None\n    while elapsed_time < control.dwell_time:\n'),
   ('graphene.py', '      transition_seconds = rng.exponential(scale=1.0 / rates.total_rate)\n',
    '      if mean_seconds is None:\n        mean_seconds = 1.0 / rates.total_rate\n      transition_seconds = rng.exponential(scale=mean_seconds)\n')],
  RATES + '''
m = graphene.PristineSingleDopedGraphene(grid_columns=20)
m.reset(np.random.default_rng(0))
si = m.get_silicon_position()
rng, log = Rng([0.01, 0.01, 0.01]), Log()
want = []
rate = graphene.PristineSingleSiGrRatePredictor(graphene.simple_canonical_rate_function)
beam = geometry.Point(si[0] + 1.0, si[1])
start = m.grid
m.apply_control(rng, mu.BeamControl(beam, dt.timedelta(seconds=1000)), [log])
grids = [start] + [g for _, g in log.moves]
want = [1 / float(rate(g, beam).total_rate) for g in grids]
assert len(rng.scales) == len(want) == 4, (rng.scales, want)
assert np.allclose(rng.scales, want, rtol=1e-5), (rng.scales, want)
''')

plant('c07_time_since_last_move', 'C07',
  'two moves of the silicon within one exposure',
  'the second move is logged with the time since the previous move instead of the time since the exposure began',
  [('graphene.py', '              time_since_control_was_applied=elapsed_time,\n', '              time_since_control_was_applied=transition_time,\n')],
  RATES + '''
from putting_dune import simulator_observers as so
m = graphene.PristineSingleDopedGraphene(grid_columns=20)
m.reset(np.random.default_rng(0))
si = m.get_silicon_position()
log = so.EventObserver()
m.apply_control(Rng([0.2, 0.3, 0.1]), control(si[0], si[1], 1000), [log])
times = [e.event_data['time_since_control_was_applied'].total_seconds() for e in log.events]
assert len(times) == 3 and times == sorted(times), times
''')

plant('c04_view_forgets_scale', 'C04',
  'the silicon leaves the view altogether, which takes several moves within one step',
  'when no silicon is visible the new view is centred on the middle of the sheet',
  [('simulator.py', '      silicon_position = self.material.get_silicon_position()\n      self._fov = microscope_utils.MicroscopeFieldOfView(\n          geometry.Point(silicon_position - self._fov_scale / 2.0),\n          geometry.Point(silicon_position + self._fov_scale / 2.0),\n      )\n      for observer',
    '      silicon_position = self.material.get_silicon_position()\n      if not (observed_grid.atomic_numbers == 14).any():\n        silicon_position = np.mean(self.material.grid.atom_positions, axis=0)\n      self._fov = microscope_utils.MicroscopeFieldOfView(\n          geometry.Point(silicon_position - self._fov_scale / 2.0),\n          geometry.Point(silicon_position + self._fov_scale / 2.0),\n      )\n      for observer')],
  RATES + '''
class M(graphene.PristineSingleDopedGraphene):
  def apply_control(self, rng, control, observers=()):
    p = self.grid.atom_positions
    si = self.get_silicon_position()
    numbers = np.full_like(self.grid.atomic_numbers, 6)
    numbers[np.argmin(np.linalg.norm(p - (si + [40.0, 10.0]), axis=1))] = 14
    self.grid = mu.AtomicGrid(p, numbers)
m = M()
sim = simulator.PuttingDuneSimulator(m)
rng = np.random.default_rng(3)
sim.reset(rng)
o = sim.step_and_image(rng, [control(0.5, 0.5, 1.0)])
s = o.grid.atom_positions[o.grid.atomic_numbers == 14]
assert s.shape == (1, 2) and np.abs(s - 0.5).max() < 1e-6, s
''')

plant('c05_recentre_image_time', 'C05',
  'a step after which the silicon has left the central half of the view',
  'the second image, taken after the view was re-centred, is not counted into the elapsed time',
  [('simulator.py', "        observer.observe_fov_change(self._fov)\n      observed_grid, image_time = self._get_observed_grid_and_elapsed_time()\n      elapsed_time += image_time\n",
    "        observer.observe_fov_change(self._fov)\n      observed_grid, image_time = self._get_observed_grid_and_elapsed_time()\n      elapsed_time = max(elapsed_time, image_time)\n")],
  RATES + '''
class M(graphene.PristineSingleDopedGraphene):
  def apply_control(self, rng, control, observers=()):
    p = self.grid.atom_positions
    si = self.get_silicon_position()
    numbers = np.full_like(self.grid.atomic_numbers, 6)
    numbers[np.argmin(np.linalg.norm(p - (si + [9.5, 0.0]), axis=1))] = 14
    self.grid = mu.AtomicGrid(p, numbers)
log = Log()
sim = simulator.PuttingDuneSimulator(M(), observers=[log])
rng = np.random.default_rng(3)
sim.reset(rng)
log.images.clear()
o = sim.step_and_image(rng, [control(0.5, 0.5, 1.0)])
assert len(log.images) == 2
assert abs(o.elapsed_time.total_seconds() - 5.0) < 1e-6, o.elapsed_time
''')

plant('c01_truncation_keeps_running', 'C01',
  'a goal that truncates the episode (the built-in goal never does)',
  'after a truncated episode the next step continues it instead of starting a new one',
  [('putting_dune_environment.py', "    elif goal_return.is_truncated:\n      self._requires_reset = True\n", "    elif goal_return.is_truncated:\n")],
  RATES + '''
import dm_env
from putting_dune import action_adapters, feature_constructors, putting_dune_environment as env_lib
class G(goals.SingleSiliconGoalReaching):
  def calculate_reward_and_terminal(self, observation):
    return goals.GoalReturn(0.0, False, True)
env = env_lib.PuttingDuneEnvironment(
    graphene.PristineSingleDopedGraphene(), action_adapters.DirectActionAdapter(),
    feature_constructors.SingleSiliconPristineGrapheneFeatureConstuctor(), G())
env.seed(0)
a = np.array([0.5, 0.5], np.float32)
kinds = [env.reset().step_type, env.step(a).step_type, env.step(a).step_type]
assert kinds == [dm_env.StepType.FIRST, dm_env.StepType.LAST, dm_env.StepType.FIRST], kinds
''')

plant('c08_first_seed_sticks', 'C08',
  'an environment with the delta adapter that is seeded a second time',
  'the generator of the action adapter is only replaced by the first seeding, so the first beam position after a second seeding does not follow from the seed',
  [('putting_dune_environment.py', "    if hasattr(self._action_adapter, 'rng'):\n      self._action_adapter.rng = self._rng\n",
    "    if not getattr(self, '_seeded', False) and hasattr(\n        self._action_adapter, 'rng'\n    ):\n      self._action_adapter.rng = self._rng\n      self._seeded = True\n")],
  RATES + '''
from putting_dune import action_adapters, feature_constructors, putting_dune_environment as env_lib
env = env_lib.PuttingDuneEnvironment(
    graphene.PristineSingleDopedGraphene(), action_adapters.DeltaPositionActionAdapter(np.random.default_rng(5)),
    feature_constructors.SingleSiliconPristineGrapheneFeatureConstuctor(), goals.SingleSiliconGoalReaching())
out = []
for _ in range(3):
  env.seed(11)
  env.reset()
  env.step(np.zeros(2, np.float32))
  c = env.last_microscope_observation.controls[0].position
  out.append((c.x, c.y))
assert out[0] == out[1] == out[2], out
''')

plant('c09_far_goal_from_width', 'C09',
  'a view that is wider than high (or the reverse) and a goal range that only some atoms satisfy',
  'vertical distances to candidate goals are scaled by the width of the view',
  [('goals.py', '        [initial_observation.fov.width, initial_observation.fov.height]\n', '        [initial_observation.fov.width, initial_observation.fov.width]\n')],
  RATES + '''
p = np.array([[0.5, 0.5], [0.5, 0.9], [0.6, 0.5]])
grid = mu.AtomicGrid(p, np.array([14, 6, 6]))
fov = mu.MicroscopeFieldOfView(geometry.Point(0, 0), geometry.Point(20, 10))
o = mu.MicroscopeObservation(grid, fov, (), dt.timedelta(seconds=1))
goal = goals.SingleSiliconGoalReaching()
goal.goal_range_angstroms = (3.0, 5.0)
goal.reset(np.random.default_rng(0), o)
assert np.allclose(goal.goal_position_material_frame, [10.0, 9.0])
''')

plant('c06_tolerance_in_view_units', 'C06',
  'a negative tolerance with atoms near the upper or right border',
  'a negative tolerance only shrinks the lower left side of the view',
  [('microscope_utils.py', "    upper_right = np.asarray(self.upper_right.coords) + tolerance\n", "    upper_right = np.asarray(self.upper_right.coords) + max(tolerance, 0)\n")],
  RATES + '''
fov = mu.MicroscopeFieldOfView(geometry.Point(0, 0), geometry.Point(10, 10))
g = mu.AtomicGrid(np.array([[0.5, 5.0], [9.5, 5.0], [5.0, 9.5], [5.0, 5.0]]), np.array([6, 6, 6, 14]))
assert len(fov.get_atoms_in_bounds(g, -1.0).atomic_numbers) == 1
assert len(fov.get_atoms_in_bounds(g, 0.0).atomic_numbers) == 4
''')

plant('c10_reach_of_first_axis', 'C10',
  'a view that is not square and an action with a vertical part',
  'the vertical reach of the relative adapter is computed from the width of the view',
  [('action_adapters.py', "        fov.upper_right.y - fov.lower_left.y\n", "        fov.upper_right.x - fov.lower_left.x\n")],
  RATES + '''
from putting_dune import action_adapters
o = mu.MicroscopeObservation(mu.AtomicGrid(np.array([[0.5, 0.5]]), np.array([14])),
    mu.MicroscopeFieldOfView(geometry.Point(0, 0), geometry.Point(20, 10)), (), dt.timedelta(seconds=1))
a = action_adapters.RelativeToSiliconActionAdapter(max_distance_angstroms=2.0)
c = a.get_action(o, np.array([0.0, 1.0]))[0]
assert abs(c.position.y - 0.7) < 1e-6, c.position.y
''')

plant('c12_shift_defaults', 'C12',
  'a control with a voltage or current other than the default that is shifted',
  'shifting a control replaces its voltage and current with the defaults',
  [('microscope_utils.py', "        shifted_position, self.dwell_time, self.voltage_kv, self.current_na\n    )\n\n  @classmethod", "        shifted_position, self.dwell_time\n    )\n\n  @classmethod")],
  RATES + '''
c = mu.BeamControl(geometry.Point(1, 2), dt.timedelta(seconds=3), None, 0.5).shift(geometry.Point(1, -1))
assert (c.position.x, c.position.y, c.voltage_kv, c.current_na) == (2, 1, None, 0.5), c
''')

plant('c13_empty_label', 'C13',
  'an observation that has a label image but no image',
  'the label image is only stored when there is also an image',
  [('microscope_utils.py', "        tf.make_tensor_proto(self.label_image)\n        if self.label_image is not None\n", "        tf.make_tensor_proto(self.label_image)\n        if self.label_image is not None and image is not None\n")],
  RATES + '''
o = mu.MicroscopeObservation(mu.AtomicGrid(np.array([[0.5, 0.5]]), np.array([14])),
    mu.MicroscopeFieldOfView(geometry.Point(0, 0), geometry.Point(20, 10)), (), dt.timedelta(seconds=1),
    label_image=np.ones((3, 2), np.float32))
back = mu.MicroscopeObservation.from_proto_string(o.to_proto().SerializeToString())
assert back.image is None and np.array_equal(back.label_image, o.label_image)
''')

plant('c14_swallowed_error', 'C14',
  'a record file with a corrupted byte',
  'reading a damaged file ends silently instead of failing',
  [('io.py', "        records = tf.data.TFRecordDataset(file).as_numpy_iterator()\n", "        records = (\n            tf.data.TFRecordDataset(file)\n            .ignore_errors()\n            .as_numpy_iterator()\n        )\n")],
  '''
import os, tempfile
from putting_dune import io
with tempfile.TemporaryDirectory() as d:
  path = os.path.join(d, 'a.tfrecords')
  io.write_records(path, [b'first', b'second', b'third'])
  data = bytearray(open(path, 'rb').read())
  data[15] ^= 1
  open(path, 'wb').write(bytes(data))
  try:
    got = list(io.read_records(path))
  except Exception:
    got = 'error'
  assert got == 'error', got
''')

plant('c15_hash_order', 'C15',
  'two listings of the same atoms in which different elements are swapped',
  'the hash weighs atoms by their place in the listing when there is more than one element',
  [('microscope_utils.py', "    result = modifier * sq_distance\n", "    result = modifier * np.sort(sq_distance)\n")],
  RATES + '''
p = np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 2.0]])
n = np.array([14, 6, 6])
a = mu.AtomicGrid(p, n)
for order in ([1, 0, 2], [2, 1, 0], [1, 2, 0]):
  b = mu.AtomicGrid(p[order], n[order])
  assert a == b and hash(a) == hash(b), order
''')

plant('c16_weightless_mode', 'C16',
  'a mixture of at least two components with unequal weights',
  'the mixture is normalised by its narrowest component, whatever the weight of that component',
  [('graphene.py', "    return self.max_rate / max_mode_prob\n", "    narrowest = np.argmin(np.prod(self.variances, axis=-1))\n    peak = scipy.stats.multivariate_normal.pdf(\n        np.zeros(2), np.zeros(2), np.diag(self.variances[narrowest])\n    )\n    max_mode_prob = peak * self.mixture_weights[narrowest]\n    return self.max_rate / max_mode_prob\n")],
  RATES + '''
f = graphene.GaussianMixtureRateFunction(0.5, np.array([0.05, 0.95]), np.array([-1.9, 1.0]), np.array([[0.1, 0.1], [0.2, 0.2]]))
m = graphene.PristineSingleDopedGraphene(rate_function=f, grid_columns=20)
m.reset(np.random.default_rng(0))
si = m.get_silicon_position()
p = m.grid.atom_positions
nb = p[np.argsort(np.linalg.norm(p - si, axis=1))[1]]
r = f(m.grid, geometry.Point(*nb))
assert abs(max(float(s.rate) for s in r.successor_states) - 0.5) < 0.02, r
''')

plant('c17_equal_if_any_close', 'C17',
  'two models that differ in one variance only',
  'models compare equal as long as one of the variances agrees',
  [('graphene.py', "        or (np.abs(self.variances - other.variances) > 1e-3).any()\n", "        or (np.abs(self.variances - other.variances) > 1e-3).all()\n")],
  RATES + '''
a = graphene.GaussianMixtureRateFunction(0.5, np.array([0.9, 0.1]), np.array([1.0, 0.5]), np.array([[0.1, 0.1], [5.0, 5.0]]))
b = graphene.GaussianMixtureRateFunction(0.5, np.array([0.9, 0.1]), np.array([1.0, 0.5]), np.array([[0.1, 0.1], [5.0, 2.0]]))
assert a != b and a == a
''')

plant('c39_jax_turns_back', 'C39',
  'a rotation by more than half a turn with the jax implementation',
  'the jax rotation limits the angle to half a turn',
  [('geometry.py', "  rotation_matrix = jnp.asarray(\n", "  theta = jnp.clip(theta, -jnp.pi, jnp.pi)\n  rotation_matrix = jnp.asarray(\n")],
  '''
import numpy as np
from putting_dune import geometry
p = np.array([[1.0, 0.0], [0.0, 2.0]])
for t in (0.3, -2.0, 4.0, 7.0):
  assert np.abs(geometry.rotate_coordinates(p, t) - np.asarray(geometry.jnp_rotate_coordinates(p, t))).max() < 1e-5, t
''')

plant('c11_neighbour_scale', 'C11',
  'a listing in which the silicon does not precede its neighbours',
  'the first of the four nearest atoms in the listing, rather than the silicon itself, is left out of the neighbour vectors of the material-frame features',
  [('feature_constructors.py', "    neighbor_positions = grid.atom_positions[neighbor_indices[0, 1:]]\n", "    neighbor_positions = grid.atom_positions[np.sort(neighbor_indices[0])[1:]]\n")],
  RATES + '''
from putting_dune import feature_constructors
goal = goals.SingleSiliconGoalReaching()
fov = mu.MicroscopeFieldOfView(geometry.Point(0, 0), geometry.Point(10, 10))
f = feature_constructors.SingleSiliconMaterialFrameFeatureConstructor()
p = np.array([[0.6, 0.5], [0.5, 0.62], [0.5, 0.5], [0.4, 0.39], [0.9, 0.9]])
o = mu.MicroscopeObservation(mu.AtomicGrid(p, np.array([6, 6, 14, 6, 6])), fov, (), dt.timedelta(seconds=1))
got = np.asarray(f.get_features(o, goal))[2:8].reshape(3, 2)
want = np.array([[1.0, 0.0], [0.0, 1.2], [-1.0, -1.1]])
assert np.abs(got - want).max() < 1e-5, got
''')

plant('c02_shared_numbers', 'C02',
  'an agent or log that keeps a grid of an earlier moment of the episode, and a later move',
  'when a move takes place the elements of the previous grid are overwritten, so that grids handed out earlier change',
  [('graphene.py', "        self.grid = rates.successor_states[successor_state_idx].grid\n",
    "        next_grid = rates.successor_states[successor_state_idx].grid\n        self.grid.atomic_numbers[:] = next_grid.atomic_numbers\n        self.grid = microscope_utils.AtomicGridMaterialFrame(\n            microscope_utils.AtomicGrid(\n                next_grid.atom_positions, self.grid.atomic_numbers\n            )\n        )\n")],
  RATES + '''
m = graphene.PristineSingleDopedGraphene(grid_columns=20)
m.reset(np.random.default_rng(0))
before, kept = m.grid, m.grid.atomic_numbers.copy()
si = m.get_silicon_position()
m.apply_control(Rng([0.1]), control(si[0], si[1], 1000))
assert (before.atomic_numbers == kept).all()
assert (m.grid.atomic_numbers != kept).sum() == 2
''')
