"""Third batch of planted bugs: python3 -m tools.bugs.b3 (from /verif)."""
from tools.bugs.b2 import BASE
from tools.plant import plant

# Stand-ins for packages that are not installed, for demonstrations.
GRAIN = '''
import sys, types
pkg, grain = types.ModuleType('grain'), types.ModuleType('grain.tensorflow')
class MapTransform: pass
class ShardByJaxProcess:
  def __init__(self, *a, **k): pass
grain.MapTransform, grain.ShardByJaxProcess = MapTransform, ShardByJaxProcess
grain.config = types.SimpleNamespace(update=lambda *a: None)
pkg.tensorflow = grain
sys.modules['grain'], sys.modules['grain.tensorflow'] = pkg, grain
'''

UPLOAD = '''
import sys, types
sys.modules['riegeli'] = types.ModuleType('riegeli')
import numpy as np
from putting_dune.pipeline import upload_microscope_data as upload

def convert(frames, size=64):
  """Frames of (atoms, dopants or None, shift)."""
  images = np.zeros((len(frames), size, size), np.float32)
  where, what = {}, {}
  for t, (atoms, dopants, shift) in enumerate(frames):
    found = dopants is not None
    where[str(t)] = {
        'image': np.array(atoms, float),
        'dopant': np.array(dopants if found else [(np.nan, np.nan)], float),
        'beam loc': np.array([(8., 16.)] if found else [(np.nan, np.nan)], float)}
    what[str(t)] = {'FOV': 2.0, 'beam dwelltime': 1.5 if found else np.nan, 'pixelshifts': np.array(shift)}
  return upload.convert_dataset_to_proto(images, where, what).observations
'''

plant('c38_nearest_is_silicon', 'C38',
  'a dopant at a place where no atom was recorded',
  'the atom nearest to the dopant becomes silicon although it is elsewhere',
  [('pipeline/upload_microscope_data.py', "      matches = dists < 1e-6\n", "      matches = dists <= max(dists.min(), 1e-6)\n")],
  UPLOAD + '''
atoms = [(10., 10.), (20., 10.), (30., 40.)]
obs = convert([(atoms, [(20., 10.)], (0, 0)), (atoms, [(21., 11.)], (0, 0)), (atoms, None, (0, 0)), (atoms, [(30., 40.)], (0, 0))])
got = [list(o.grid.atomic_numbers) for o in obs]
assert got == [[6, 14, 6], [6, 6, 6], [6, 6, 6], [6, 6, 14]], got
''')

plant('c38_view_from_first_frame', 'C38',
  'at least two frames with shifts',
  'each field of view is moved by its own shift from the first one instead of by all shifts so far',
  [('pipeline/upload_microscope_data.py', "  corners = np.stack([[0, 0], [10 * fov, 10 * fov]], axis=0)\n", "  origin = np.stack([[0, 0], [10 * fov, 10 * fov]], axis=0)\n"),
   ('pipeline/upload_microscope_data.py', "    corners = corners + shift\n", "    corners = origin + shift\n")],
  UPLOAD + '''
atoms = [(10., 10.), (20., 10.), (30., 40.)]
obs = convert([(atoms, [(20., 10.)], s) for s in ((0, 0), (6.4, 0), (3.2, -3.2), (0, 0))])
got = [round(o.fov.lower_left.x, 4) for o in obs]
assert got == [0.0, 2.0, 3.0, 3.0], got
''')

plant('c43_arc_through_nearest', 'C43',
  'neighbours at different distances from the silicon',
  'the circle has the distance of the nearest neighbour as its radius, not the mean distance',
  [('plotting_utils.py', "  mean_neighbor_distance = np.mean(\n", "  mean_neighbor_distance = np.min(\n")],
  '''
import matplotlib; matplotlib.use('Agg')
from matplotlib import pyplot as plt
import numpy as np
from putting_dune import graphene, microscope_utils as mu, plotting_utils
angles = np.array([0.3, 2.4, 4.5]); r = np.array([1.2, 1.5, 1.8])
points = np.concatenate([[[0, 0]], r[:, None] * np.stack([np.cos(angles), np.sin(angles)], 1), [[5, 5], [-5, 4]]])
grid = mu.AtomicGrid(points, np.array([14, 6, 6, 6, 6, 6]))
radii = []
def rates(grid, beam):
  radii.append(np.hypot(beam.x, beam.y))
  states = []
  for k in (1, 2, 3):
    numbers = grid.atomic_numbers.copy(); numbers[[0, k]] = numbers[[k, 0]]
    states.append(graphene.SuccessorState(mu.AtomicGrid(grid.atom_positions, numbers), 0.1 * k))
  return graphene.Rates(states)
fig, ax = plt.subplots()
plotting_utils.plot_rate_along_arc3(ax, rates, grid, num_points=5)
assert np.allclose(radii, 1.5), radii
''')

plant('c44_final_error_of_last_image', 'C44',
  'evaluation on several frames, of a batch with more than one image',
  'the error of the last frame is that of all frames of the last image of the batch when evaluating',
  [('image_alignment/train.py', "\n  final_drift_error = jnp.mean(drift_errors[..., -1])\n", "\n  final_drift_error = jnp.mean(drift_errors[-1, ...])\n")],
  GRAIN + '''
import jax, numpy as np, optax
from putting_dune.image_alignment import train
state = train.TrainState.create(apply_fn=lambda p, x: (p['a'] * np.zeros((2, 2, 6)), p['a'] * np.zeros(4)),
    params={'a': np.float32(1)}, tx=optax.sgd(0.1), metrics=train.Metrics.empty())
drift = np.array([[[3, 4], [0, 1]], [[0, 2], [6, 8]]], np.float32)
batch = {'images': np.zeros((2, 2, 2, 2), np.float32), 'mask': np.eye(3, dtype=np.float32)[np.zeros((2, 2, 2, 2), int)], 'drift': drift}
out = train.eval_step(state, batch, final_only=False).metrics.compute()
assert abs(out['final_step_drift_error'] - (1 + 10) / 2) < 1e-5, out
''')

plant('c44_padding_moves_along', 'C44',
  'graphs with padding, whose padded atoms have labels or predictions other than zero',
  'atoms that only fill up the batch take part in the training of local displacements',
  [('graph_alignment/train.py', "    local_loss = (local_loss * padding_mask).mean(-1)\n", "    local_loss = local_loss.mean(-1) * padding_mask.max(-1)\n")],
  GRAIN + '''
import jax, numpy as np, optax, jax.numpy as jnp
from putting_dune.graph_alignment import train
class Neighbor:
  def update(self, positions): return self
train.graph_model.create_sparse_neighbor_list = lambda *a: Neighbor()
def apply_fn(params, positions, neighbor, nodes):
  return jnp.zeros((2, 2)), params['a'] * jnp.ones((2, 2, 2))
state = train.TrainState.create(apply_fn=None, params={'a': jnp.float32(1)}, tx=optax.sgd(0.1), metrics=train.Metrics.empty())
features = np.zeros((1, 2, 2, 1), np.float32); features[:, :, 0] = 1
batch = {'positions': np.zeros((1, 2, 2, 2), np.float32), 'features': features,
         'local_labels': np.zeros((1, 2, 2, 2), np.float32), 'global_labels': np.zeros((1, 2, 2), np.float32)}
out = train.train_step(state, batch, apply_fn=apply_fn, neighbor_update_fn=len).metrics.compute()
assert abs(out['local_loss'] - 1.0) < 1e-5, out
''')

plant('c45_only_heights_compared', 'C45',
  'images whose height already is the size asked for, but not their width',
  'such images are not resized, while their masks are',
  [('image_alignment/dataset.py', "    if images.shape[0] != self.image_size or images.shape[1] != self.image_size:\n", "    if images.shape[0] != self.image_size:\n")],
  GRAIN + '''
import tensorflow as tf
from putting_dune.image_alignment import dataset
out = dataset.ResizeImage(image_size=4).map({'images': tf.zeros((2, 4, 8, 1), tf.uint8), 'mask': tf.zeros((2, 4, 8, 1), tf.uint8)})
assert tuple(out['images'].shape) == (4, 4, 2), out['images'].shape
''')

plant('c45_first_drift_of_last_frame', 'C45',
  'sequences of at least two displacements, of which only the last frame counts',
  'images and masks are of the last frame, displacements of the first',
  [('image_alignment/dataset.py', "    features['drift'] = features['drift'][-1:]\n", "    features['drift'] = features['drift'][:1]\n")],
  GRAIN + '''
import numpy as np, tensorflow as tf
from putting_dune.image_alignment import dataset
out = dataset.SelectFinalTimestep().map({'mask': tf.range(3), 'drift': tf.constant([[1., 2.], [3., 4.]])})
assert out['drift'].numpy().tolist() == [[3.0, 4.0]], out
''')

plant('c46_edges_of_the_halo', 'C46',
  'a neighbour list with a halo, and atoms whose distance lies between the cutoff and the halo',
  'atoms in the halo are connected, so that outputs depend on its width',
  [('graph_alignment/model.py', "        mask = dr_2 < r_cutoff**2 + 1e-5\n", "        mask = dr_2 < (r_cutoff + dr_threshold) ** 2 + 1e-5\n")],
  '''
import jax, numpy as np, jax.numpy as jnp
from jax_md import partition, space
from putting_dune.graph_alignment import model
displacement, _ = space.periodic(jnp.ones(2) * 100.0)
p = np.array([[50, 50], [51.5, 50], [50, 54.0], [70, 70], [71, 70], [70, 74.2]], np.float32)
nodes = np.ones((6, 1), np.float32)
out, params = [], None
for halo in (0.25, 1.5):
  neighbor_fn, init_fn, apply_fn = model.graph_network_neighbor_list(displacement, jnp.array(100.0), r_cutoff=3.5,
      dr_threshold=halo, sequence_length=2, mlp_sizes=(16, 16), disable_cell_list=True, capacity_multiplier=2.0)
  neighbor = neighbor_fn.allocate(jnp.array(p))
  if params is None: params = init_fn(jax.random.PRNGKey(0), jnp.array(p), neighbor, nodes)
  out.append(apply_fn(params, jnp.array(p), neighbor, nodes=nodes))
for a, b in zip(*out): assert np.allclose(a, b, atol=1e-4), (a, b)
''')

plant('c47_newest_is_packaged', 'C47',
  'training whose last checkpoint is not its best one',
  'the newest checkpoint is packaged',
  [('image_alignment/save_model.py', "  best_step = chkpt_manager.best_step()\n", "  best_step = chkpt_manager.latest_step()\n")],
  '''
import tempfile, pathlib
from putting_dune.image_alignment import save_model
asked = []
class Done(Exception): pass
class Manager:
  def __init__(self, *a, **k): pass
  def best_step(self): return 3
  def latest_step(self): return 7
  def restore(self, step, *a, **k): asked.append(step); raise Done
save_model.checkpoint.CheckpointManager = Manager
with tempfile.TemporaryDirectory() as d:
  try: save_model.save(save_model.Config(workdir=pathlib.Path(d), save_path=pathlib.Path(d)))
  except Done: pass
assert asked == [3], asked
''')

plant('c47_any_model_will_do', 'C47',
  'a directory in which another model has been unpacked before',
  'the aligner is not unpacked next to another model, and cannot be loaded',
  [('alignment.py', "    if not model_path.exists() or reload:\n", "    if not model_path.parent.exists() or reload:\n")],
  '''
import tempfile, zipfile, pathlib
from etils import epath
from putting_dune import alignment
with tempfile.TemporaryDirectory() as d:
  root = pathlib.Path(d); (root / 'work' / 'model_weights' / 'atom-detection-model').mkdir(parents=True)
  with zipfile.ZipFile(root / 'm.zip', 'w') as z: z.writestr('image-alignment-model/saved_model.pb', b'x')
  alignment.ImageAligner.from_path(epath.Path(root / 'm.zip'), workdir=str(root / 'work'))
  assert (root / 'work' / 'model_weights' / 'image-alignment-model' / 'saved_model.pb').exists()
''')

TRAIN = GRAIN + '''
import contextlib, tempfile, pathlib, collections
import numpy as np, jax, tensorflow as tf
from flax import linen as nn
from clu import metric_writers, periodic_actions
from putting_dune.%(package)s import train

# Everything a trainer talks to, in memory.
class Dataset:
  def __init__(self, name): self.name, self.taken = name, 0
  element_spec = None
  def as_numpy_iterator(self):
    while True:
      self.taken += 1
      yield batch(self.name, self.taken)
saved = []
class Manager:
  def __init__(self, *a, **k): pass
  def latest_step(self): return None
  def save(self, step, items=None, metrics=None, **k): saved.append((step, items, metrics))
class Progress:
  def __init__(self, *a, **k): pass
  def timed(self, name): return contextlib.nullcontext()
  def __call__(self, *a, **k): pass
sets = Dataset('train'), Dataset('test')
train.checkpoint.CheckpointManager = Manager
train.metric_writers.create_default_writer = lambda *a, **k: None
train.metric_writers.ensure_flushes = lambda w: contextlib.nullcontext()
train.metric_writers.write_values = lambda *a, **k: None
train.periodic_actions.ReportProgress = Progress
'''

plant('c48_training_counts_in_evaluation', 'C48',
  'at least two epochs that differ in accuracy',
  'the averages reported for the training of an epoch include the batches of the epochs before',
  [('atom_detection/train.py', "          state.replace(metrics=TrainMetrics.empty()),\n", "          state,\n")],
  TRAIN % {'package': 'atom_detection'} + '''
def batch(name, i):
  # The network says class 0: right in the first epoch, wrong afterwards.
  mask = np.eye(3, dtype=np.float32)[np.full((2, 2, 2), 0 if i <= 4 else 1)]
  return {'image': np.zeros((2, 2, 2, 1), np.float32), 'mask': mask}
for s in sets: s.element_spec = {k: tf.TensorSpec(v.shape, v.dtype) for k, v in batch('train', 0).items()}
train.atom_detection_dataset.make_dataset = lambda *a, **k: sets
class Net(nn.Module):
  @nn.compact
  def __call__(self, x):
    return nn.Dense(3, kernel_init=nn.initializers.zeros, bias_init=lambda *a: np.array([9., 0., 0.], np.float32))(x)
train.unet.UNet = lambda *a, **k: Net()
with tempfile.TemporaryDirectory() as d:
  train.train(train.Config(workdir=pathlib.Path(d), data_dir=pathlib.Path(d), seed=0, train_steps_per_epoch=8, eval_steps_per_epoch=4, batch_size=2, epochs=2))
first, second = saved[0][2], saved[1][2]
assert abs(first['train/accuracy'] - 1) < 1e-6 and abs(second['train/accuracy']) < 1e-6, (first, second)
''')

plant('c48_one_batch_too_many', 'C48',
  'a number of steps that is not a multiple of the batch size',
  'an epoch of the atom detector has one more batch than the schedule of its learning rate',
  [('atom_detection/train.py', "                  train_iter, config.train_steps_per_epoch // config.batch_size\n",
    "                  train_iter, -(-config.train_steps_per_epoch // config.batch_size)\n")],
  TRAIN % {'package': 'atom_detection'} + '''
def batch(name, i):
  mask = np.eye(3, dtype=np.float32)[np.full((2, 2, 2), i % 3)]
  return {'image': np.full((2, 2, 2, 1), i, np.float32), 'mask': mask}
for s in sets: s.element_spec = {k: tf.TensorSpec(v.shape, v.dtype) for k, v in batch('train', 0).items()}
train.atom_detection_dataset.make_dataset = lambda *a, **k: sets
class Net(nn.Module):
  @nn.compact
  def __call__(self, x): return nn.Dense(3)(x)
train.unet.UNet = lambda *a, **k: Net()
with tempfile.TemporaryDirectory() as d:
  out = train.train(train.Config(workdir=pathlib.Path(d), data_dir=pathlib.Path(d), seed=0, train_steps_per_epoch=7, eval_steps_per_epoch=4, batch_size=2, epochs=2))
assert int(out.step) == 2 * (7 // 2), out.step
''')

# --- Second bugs of other properties ----------------------------------------

plant('c04_lost_silicon_is_not_sought', 'C04',
  'silicon that leaves the view altogether within one step',
  'the view stays where it is when no silicon is visible in it',
  [('simulator.py', "    if not observed_silicon_positions.size:\n      return True\n", "    if not observed_silicon_positions.size:\n      return False\n")],
  BASE + '''
from putting_dune import simulator
class Material:
  def __init__(self): self.si = np.zeros(2)
  def reset(self, rng): self.si = np.zeros(2); self.grid = None
  def get_silicon_position(self): return self.si
  def get_atoms_in_bounds(self, a, b):
    a, b = np.array(a.coords)[0], np.array(b.coords)[0]
    p = (self.si - a) / (b - a)
    seen = (p >= 0).all() and (p <= 1).all()
    return mu.AtomicGrid(p[None][:int(seen)], np.array([14])[:int(seen)])
  def apply_control(self, rng, control, observers): self.si = self.si + np.array([control.dwell_time.total_seconds(), 0.])
sim = simulator.PuttingDuneSimulator(Material())
o = sim.reset(np.random.default_rng(0))
o = sim.step_and_image(np.random.default_rng(0), [control(.5, .5, seconds=1.4 * o.fov.width)])
assert len(o.grid.atom_positions) and abs(o.grid.atom_positions[0, 0] - 0.5) < 1e-6, o.grid
''')

plant('c07_only_last_move', 'C07',
  'two moves of the silicon within one exposure',
  'only the last move of an exposure is logged',
  [('graphene.py', "    elapsed_time = dt.timedelta(seconds=0)\n    while elapsed_time < control.dwell_time:\n", "    elapsed_time = dt.timedelta(seconds=0)\n    last_transition = None\n    while elapsed_time < control.dwell_time:\n"),
   ('graphene.py', "        for observer in observers:\n          observer.observe_transition(\n              time_since_control_was_applied=elapsed_time,\n              grid=self.grid,\n          )\n",
    "        last_transition = elapsed_time\n\n    if last_transition is not None:\n      for observer in observers:\n        observer.observe_transition(\n            time_since_control_was_applied=last_transition,\n            grid=self.grid,\n        )\n")],
  BASE + '''
class Log(mu.SimulatorObserver):
  def __init__(self): self.moves = []
  def observe_transition(self, time_since_control_was_applied, grid): self.moves.append(grid)
material = graphene.PristineSingleDopedGraphene()
rng = np.random.default_rng(0)
moved = 0
for seed in range(30):
  material.reset(rng)
  at = [material.grid]
  log = Log()
  material.apply_control(rng, control(*(material.get_silicon_position() + [1., 0.]), seconds=20.), [log])
  for after in log.moves:
    before = at[-1]
    a, b = (g.atom_positions[g.atomic_numbers == 14][0] for g in (before, after))
    assert .5 < np.linalg.norm(a - b) < 1.6, (a, b)
    at.append(after)
  moved += len(log.moves) > 1
assert moved > 3, moved
''')

plant('c08_noise_of_its_own', 'C08',
  'an environment that observes images, seeded twice',
  'salt and pepper noise in the image does not follow from the seed',
  [('imaging.py', "  return skimage.util.random_noise(image, mode='s&p', amount=amount, seed=rng)\n", "  return skimage.util.random_noise(image, mode='s&p', amount=amount)\n")],
  BASE + '''
from putting_dune import run_helpers
from putting_dune.experiments import registry
e = registry.create_train_experiment('relative_simple_rates_from_images')
env = run_helpers.create_putting_dune_env(0, get_adapters_and_goal=e.get_adapters_and_goal, get_simulator_config=e.get_simulator_config)
def run(seed):
  env.seed(seed); env.reset(); return env.last_microscope_observation.image
for seed in range(3):
  a, b = run(seed), run(seed)
  assert np.array_equal(a, b)
''')

plant('c22_image_of_earlier_frame', 'C22',
  'a trajectory in which some observations have no image',
  'a transition from an observation without an image carries the image of an earlier one',
  [('pipeline/trajectories_to_transitions.py', "      image_before = image_after\n", "      image_before = image_before if image_after is None else image_after\n")],
  BASE + '''
from putting_dune.pipeline import trajectories_to_transitions as t
import dataclasses
o = [observation(grid((.5, .5, 14), (.1 * i, .2, 6)), fov(), [control(.1, .2)]) for i in range(3)]
o[0] = dataclasses.replace(o[0], image=np.ones((2, 2)))
o[1] = dataclasses.replace(o[1], image=None)
a, b = t.trajectories_to_transitions([mu.Trajectory(o)])
assert a.image_before is not None and a.image_after is None and b.image_before is None, b
''')

plant('c10_no_dwell_at_lower_bound', 'C10',
  'a range of dwell times, and the lowest action',
  'the dwell time falls below the range: the minimum is scaled along',
  [('action_adapters.py', "          dwell_time_action * dwell_range_seconds + self._min_dwell_seconds\n      )\n      dwell_time = dt.timedelta(seconds=dwell_time_seconds)\n\n    return [\n        microscope_utils.BeamControlMicroscopeFrame(\n            microscope_utils.BeamControl(\n                geometry.Point(*control_position), dwell_time\n            )\n        )\n    ]\n\n  @property\n",
    "          dwell_time_action * self._max_dwell_seconds\n          if dwell_time_action * dwell_range_seconds > self._min_dwell_seconds\n          else dwell_time_action * dwell_range_seconds + self._min_dwell_seconds\n      )\n      dwell_time = dt.timedelta(seconds=dwell_time_seconds)\n\n    return [\n        microscope_utils.BeamControlMicroscopeFrame(\n            microscope_utils.BeamControl(\n                geometry.Point(*control_position), dwell_time\n            )\n        )\n    ]\n\n  @property\n")],
  BASE + '''
from putting_dune import action_adapters
a = action_adapters.RelativeToSiliconActionAdapter(dwell_time_range=(dt.timedelta(seconds=1), dt.timedelta(seconds=5)))
o = observation(grid((.5, .5, 14)), fov())
for x in (0., .1, .5, 1.):
  (c,) = a.get_action(o, np.array([0., 0., x]))
  assert abs(c.dwell_time.total_seconds() - (1 + 4 * x)) < 1e-6, (x, c)
''')

plant('c24_reflected_positions_only', 'C24',
  'transitions towards the second or third neighbour, or rates that differ between them, that are reflected after being turned',
  'reflection exchanges the rates of the wrong pair of neighbours',
  [('rate_learning/data_utils.py', "  attr_reflection_matrix = jnp.array([[1, 0, 0], [0, 0, 1], [0, 1, 0]])\n", "  attr_reflection_matrix = jnp.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]])\n")],
  '''
import numpy as np, jax.numpy as jnp
from putting_dune.rate_learning import data_utils
out = data_utils.reflect_transition(jnp.array([2]), jnp.array([1.]), jnp.array([1., 2., 3.]), jnp.array([.3, .4]))
assert np.allclose(out[2], [1, 3, 2]) and int(out[0][0]) == 3, out
''')
