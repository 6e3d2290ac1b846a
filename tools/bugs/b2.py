"""Second batch of planted bugs: python3 -m tools.bugs.b2 (from /verif)."""
from tools.plant import plant

BASE = '''
import datetime as dt, sys, tempfile, os
import numpy as np
from putting_dune import geometry, graphene, goals, microscope_utils as mu

def control(x, y, seconds=1.0):
  return mu.BeamControl(geometry.Point(x, y), dt.timedelta(seconds=seconds))

def fov(x0=0.0, y0=0.0, x1=20.0, y1=20.0):
  return mu.MicroscopeFieldOfView(geometry.Point(x0, y0), geometry.Point(x1, y1))

def grid(*rows):
  rows = np.array(rows, float)
  return mu.AtomicGrid(rows[:, :2], rows[:, 2].astype(int))

def observation(g, f, controls=(), seconds=1.0, image=None, label=None):
  return mu.MicroscopeObservation(g, f, tuple(controls), dt.timedelta(seconds=seconds), image, label)
'''

plant('c18_rescan_uses_first_step', 'C18',
  'the very first observation after a reset shows no silicon',
  'the rescan uses up the first step, so that the agent is never told that an episode begins',
  [('microscope_agent.py', "      # If we couldn't find a silicon, rescan.\n", "      self._is_first_step = False\n")],
  BASE + '''
import dm_env
from putting_dune import microscope_agent
from putting_dune.experiments import registry
agent = microscope_agent.MicroscopeAgent(np.random.default_rng(0), registry.create_microscope_experiment('relative_random'))
steps = []
inner = agent.agent
class Spy:
  def step(self, time_step): steps.append(time_step.step_type); return inner.step(time_step)
agent.agent = Spy()
seen = observation(grid((.5, .5, 14), (.57, .5, 6), (.46, .56, 6), (.46, .44, 6), (.1, .1, 6)), fov())
none = observation(grid((.5, .5, 6), (.57, .5, 6), (.46, .56, 6), (.46, .44, 6), (.1, .1, 6)), fov())
agent.reset(np.random.default_rng(1), seen)
agent.step(none)
agent.step(seen); agent.step(seen)
assert steps == [dm_env.StepType.FIRST, dm_env.StepType.MID], steps
''')

plant('c19_goal_of_first_episode', 'C19',
  'at least two episodes with different goals, logged by one logger',
  'the goal recorded for an episode is that of the first episode of the session',
  [('microscope_agent.py', "      record |= {\n          'episode_goal': (\n              self.__wrapped__.goal.current_goal.x,\n              self.__wrapped__.goal.current_goal.y,\n          )\n      }\n",
    "      record |= {\n          'episode_goal': next(\n              (r['episode_goal'] for r in self._episode_records[:1]),\n              (\n                  self.__wrapped__.goal.current_goal.x,\n                  self.__wrapped__.goal.current_goal.y,\n              ),\n          )\n      }\n")],
  BASE + '''
import csv
from putting_dune import microscope_agent
from putting_dune.experiments import registry
agent = microscope_agent.MicroscopeAgent(np.random.default_rng(0), registry.create_microscope_experiment('relative_random'))
m = graphene.PristineSingleDopedGraphene(grid_columns=30)
m.reset(np.random.default_rng(0))
si = m.get_silicon_position()
f = fov(si[0] - 10, si[1] - 10, si[0] + 10, si[1] + 10)
seen = observation(m.get_atoms_in_bounds(f.lower_left, f.upper_right), f)
goals_seen = []
with tempfile.TemporaryDirectory() as d:
  with microscope_agent.MicroscopeAgentLogger(agent, logdir=d) as log:
    for seed in range(3):
      log.reset(np.random.default_rng(seed), seen)
      goals_seen.append(agent.goal.current_goal)
      log.step(seen)
  rows = list(csv.DictReader(open(os.path.join(d, 'episodes.csv'))))
got = [eval(r['episode_goal'], {'np': np}) for r in rows]
want = [(g.x, g.y) for g in goals_seen]
assert len(set(want)) == 3 and np.allclose(np.array(got, float), np.array(want, float)), (got, want)
''')

plant('c20_observer_per_seed', 'C20',
  'an evaluation with a video directory and at least two seeds',
  'the observer of the videos is attached once per seed, so that later seeds are recorded twice and one observer is left behind',
  [('eval_lib.py', "  for observer in observers.values():\n    env.sim.add_observer(observer)\n\n  for seed in eval_suite.seeds:\n",
    "  for seed in eval_suite.seeds:\n    for observer in observers.values():\n      env.sim.add_observer(observer)\n\n")],
  BASE + '''
from putting_dune import eval_lib, plotting_utils
from putting_dune.agents import agent_lib
from putting_dune import run_helpers
from putting_dune.experiments import registry
seen = []
class Anim:
  def save(self, path): open(path, 'wb').write(b'x')
def video(events, goal):
  seen.append([e.event_type for e in events])
  return Anim()
plotting_utils.generate_video_from_simulator_events = video
e = registry.create_eval_experiment('relative_random_simple')
env = run_helpers.create_putting_dune_env(0, get_adapters_and_goal=e.get_adapters_and_goal, get_simulator_config=e.get_simulator_config, step_limit=2)
ag = e.get_agent(np.random.default_rng(0), e.get_adapters_and_goal())
with tempfile.TemporaryDirectory() as d:
  eval_lib.evaluate(ag, env, eval_lib.EvalSuite((1, 2)), video_save_dir=d)
resets = [sum(t.name == 'TAKE_IMAGE' for t in s) for s in seen]
assert len(seen) == 2 and resets[0] == resets[1], resets
assert not env.sim._observers, env.sim._observers
''')

plant('c21_reward_counts_as_goal', 'C21',
  'a run that reached the goal whose rewards do not add up to more than zero',
  'the proportion of runs that reached the goal counts the runs with a positive reward',
  [('eval_lib.py', "    num_times_reached_goal += int(result.reached_goal)\n", "    num_times_reached_goal += int(\n        result.reached_goal and result.total_reward > 0.0\n    )\n")],
  BASE + '''
from putting_dune import eval_lib
R = eval_lib.EvalResult
a = eval_lib.aggregate_results([R(0, True, 3, 1.0, 2.0, 1.0), R(1, True, 4, 1.0, 2.0, -2.0)])
assert a.average_num_times_reached_goal == 1.0 and a.average_num_actions_taken == 3.5, a
''')

plant('c22_stale_label', 'C22',
  'a trajectory of three observations of which the middle one has no label image',
  'the label image before a transition is that of the last labelled observation rather than that of the observation before',
  [('pipeline/trajectories_to_transitions.py', "      label_image_before = label_image_after\n", "      if label_image_after is not None:\n        label_image_before = label_image_after\n")],
  BASE + '''
from putting_dune.pipeline import trajectories_to_transitions as t
g = grid((.5, .5, 14))
lab = lambda v: None if v is None else np.full((2, 2), v)
o = [observation(g, fov(), (), 1.0, None, lab(v)) for v in (1, None, 3)]
out = t.trajectories_to_transitions([mu.Trajectory(o)])
assert out[0].label_image_before is not None and out[1].label_image_before is None
assert out[1].label_image_after[0, 0] == 3
''')

RATE_SCENE = BASE + '''
from putting_dune.pipeline import train_rate_learner as t
import pathlib
args = t.Args(source_path=pathlib.Path('x'), workdir=pathlib.Path('y'))

def sheet(si_site, drift=(0.0, 0.0)):
  m = graphene.PristineSingleDopedGraphene(grid_columns=20)
  m.reset(np.random.default_rng(0))
  g = m.grid
  numbers = np.full_like(g.atomic_numbers, 6)
  c = np.argsort(np.linalg.norm(g.atom_positions - g.atom_positions.mean(0), axis=1))[0]
  d = np.linalg.norm(g.atom_positions - g.atom_positions[c], axis=1)
  order = np.argsort(d)[1:4]
  si = c if si_site == 0 else order[si_site - 1]
  numbers[si] = 14
  keep = d < 9
  return mu.AtomicGrid(g.atom_positions[keep], numbers[keep]), g.atom_positions[c], g.atom_positions[order]

def transition(site, before_fov, after_fov, beam):
  """One exposure at `beam` (material frame), by which the silicon moves to neighbour `site`."""
  g0, si, near = sheet(0)
  g1, _, _ = sheet(site)
  f = before_fov
  return mu.Transition(
      grid_before=f.material_frame_to_microscope_frame(g0), grid_after=after_fov.material_frame_to_microscope_frame(g1),
      fov_before=f, fov_after=after_fov,
      controls=(f.material_frame_to_microscope_frame(control(*beam)),)), si, near
'''

plant('c23_beam_in_later_view', 'C23',
  'a transition during which the field of view moves along with the silicon',
  'the beam position is interpreted in the field of view after the exposure',
  [('pipeline/train_rate_learner.py', "    control = transition.fov_before.microscope_frame_to_material_frame(control)\n", "    control = transition.fov_after.microscope_frame_to_material_frame(control)\n")],
  RATE_SCENE + '''
_, si, near = sheet(0)
f0 = fov(si[0] - 10, si[1] - 10, si[0] + 10, si[1] + 10)
f1 = fov(si[0] - 9, si[1] - 10, si[0] + 11, si[1] + 10)
beam = si + 0.8 * (near[0] - si)
tr, si, near = transition(1, f0, f1, beam)
data = t.transitions_to_datapoints([tr], args)
assert len(data) == 1
d = np.asarray(data[0]['beam_pos']).reshape(-1)
assert abs(np.linalg.norm(d) - np.linalg.norm(beam - si)) < 1e-4, d
assert data[0]['next_state'] == 1
''')

plant('c23_order_not_inverted', 'C23',
  'neighbours listed in an order that is neither their order by angle nor its inverse (a cyclic permutation), and a move to one of them',
  'the neighbour that the silicon moved to is looked up in the order by angle instead of in its inverse',
  [('pipeline/train_rate_learner.py', "          np.argsort(neighbor_order_before)[silicon_transition_state - 1] + 1\n", "          neighbor_order_before[silicon_transition_state - 1] + 1\n")],
  RATE_SCENE + '''
_, si, near = sheet(0)
f0 = fov(si[0] - 10, si[1] - 10, si[0] + 10, si[1] + 10)
bad = []
for toward in range(3):
  for site in range(3):
    beam = si + 0.8 * (near[toward] - si)
    tr, _, _ = transition(site + 1, f0, f0, beam)
    data = t.transitions_to_datapoints([tr], args)
    angle = lambda v: np.arctan2(v[1], v[0])
    turn = angle(near[site] - si) - angle(near[toward] - si)
    want = int(round((turn % (2 * np.pi)) / (2 * np.pi / 3))) % 3 + 1
    if data[0]['next_state'] != want:
      bad.append((toward, site, int(data[0]['next_state']), want))
assert not bad, bad
''')

plant('c24_reflected_still', 'C24',
  'data in which the silicon stayed where it was, augmented by reflections',
  'the reflection of a transition without a move is labelled with a neighbour',
  [('rate_learning/data_utils.py', "  ref_states = (ref_states + 1) * jnp.sign(states)\n", "  ref_states = ref_states + jnp.sign(states) ** 2 + (states == 0) * (times <= 0)\n")],
  BASE + '''
from putting_dune.rate_learning import data_utils
s, *_ = data_utils.reflect_dataset(np.array([0, 1, 2, 3]), np.array([0.0, 1.0, 1.0, 1.0]), np.ones((4, 3)), np.ones((4, 2)), np.ones((4, 1)))
assert list(np.asarray(s)) == [0, 1, 3, 2], s
''')

plant('c25_test_set_at_least_one', 'C25',
  'a fraction and a length whose product is not an integer',
  'the end of the test set is rounded up and the start of the training set down, so that an element is in both',
  [('rate_learning/data_utils.py', "  test_indices = indices[: int(original_length * test_fraction)]\n", "  test_indices = indices[: int(np.ceil(original_length * test_fraction))]\n")],
  BASE + '''
import jax
from putting_dune.rate_learning import data_utils
for n in (3, 5, 8, 11):
  for fraction in (0.1, 0.25, 0.5):
    a, b = data_utils.split_dataset({'x': np.arange(n)}, jax.random.PRNGKey(0), fraction)
    assert sorted(np.concatenate([a['x'], b['x']])) == list(range(n)), (n, fraction)
''')

plant('c26_angles_after_rounding', 'C26',
  'an orientation in which the angle of the nearest neighbour comes out minutely below zero after the rotation',
  'the neighbours are ordered by the rounded angles after the rotation, by which the nearest one can come last',
  [('rate_learning/data_utils.py', "  positive_angles = (neighbor_angles + rotation_angle) % (2 * np.pi)\n", "  positive_angles = geometry.get_angles(new_neighbor_position) % (2 * np.pi)\n")],
  BASE + '''
from putting_dune.rate_learning import data_utils
bad = 0
for k in range(720):
  a = 2 * np.pi * k / 720 + 2 * np.pi / 3 * np.arange(3)
  near = np.stack([np.cos(a), np.sin(a)], 1) * 1.42
  _, _, order = data_utils.standardize_beam_and_neighbors(near[1] * 0.7, near)
  bad += order[0] != 1
assert not bad, bad
''')

plant('c27_classes_of_reference', 'C27',
  'a new frame in which one of the lattice classes of the reference does not occur',
  'the classes of the reference are paired with those of the new frame by rank instead of by name',
  [('alignment.py', "  reference_class_masks = [reference_classes == i for i in set(new_classes)]\n", "  reference_class_masks = [\n      reference_classes == i for i in sorted(set(reference_classes))\n  ]\n")],
  BASE + '''
from putting_dune import alignment
ref = np.array([[0., 0.], [5., 0.], [0.4, 0.], [5.4, 0.]])
classes = np.array([1, 1, 0, 0])
shift = alignment.align_latest(ref[:2] + [0.1, 0.0], ref, np.array([1, 1]), classes, iterations=5)
assert np.allclose(shift, [-0.1, 0.0], atol=1e-6), shift
''')

plant('c28_forgets_newest_classes', 'C28',
  'a sequence longer than the history of the aligner, of frames with different numbers of atoms',
  'when the history is full the classes of the newest frame are dropped instead of those of the oldest',
  [('alignment.py', "        self.recent_classes = self.recent_classes[to_cut:]\n", "        self.recent_classes = self.recent_classes[:-to_cut]\n")],
  BASE + '''
from putting_dune import alignment
m = graphene.PristineSingleDopedGraphene(grid_columns=20)
m.reset(np.random.default_rng(0))
p = m.grid.atom_positions; c = p.mean(0)
a = alignment.IterativeAlignmentFiltering(history_length=2)
for k, r in enumerate((8.0, 9.0, 10.0, 11.0)):
  keep = np.linalg.norm(p - c, axis=1) < r
  a(mu.AtomicGridMaterialFrame(mu.AtomicGrid(p[keep], m.grid.atomic_numbers[keep])))
  n = [len(o) for o in a.recent_observations]
  assert n == [len(x) for x in a.recent_classes], (k, n, [len(x) for x in a.recent_classes])
''')

plant('c29_shift_from_lower_edge', 'C29',
  'a new view of a different size than the old one',
  'the vertical displacement is measured at the lower instead of the upper edge of the views',
  [('alignment.py', "  y_shift = new_upper_right[1] - original_upper_right[1]\n", "  y_shift = new_lower_left[1] - original_lower_left[1]\n")],
  BASE + '''
from putting_dune import alignment
image = np.arange(64, dtype=float).reshape(8, 8)
# The upper right quarter of the view, magnified.
got = alignment.pad_and_crop_images_by_fov(image, fov(0, 0, 8, 8), fov(4, 4, 8, 8))[..., 0]
want = np.repeat(np.repeat(image[:4, 4:], 2, 0), 2, 1)
assert (got == want).all(), got
''')

plant('c30_plain_mean', 'C30',
  'an atom seen in at least three frames',
  'a merged position is the mean of the last position and the mean so far, whatever the number of frames before',
  [('alignment.py', "            positions[target] * counts[target] + m[current]\n        ) / (counts[target] + 1)\n", "            positions[target] + m[current]\n        ) / 2\n")],
  BASE + '''
from putting_dune import alignment
p, n = alignment.naive_merge([np.array([[x, 0.0]]) for x in (0.0, 0.2, 0.4, 0.6)])
assert n[0] == 4 and np.allclose(p, [[0.3, 0.0]]), (p, n)
''')

plant('c31_corner_of_buffer', 'C31',
  'an atom close to one of the upper or right edges of the image but not to the corner',
  'atoms in the buffer along the upper and the right edge are kept',
  [('alignment.py', "        atom_positions < (1 - buffer_width)\n    ).all(-1)\n", "        atom_positions < (1 - buffer_width)\n    ).any(-1)\n")],
  BASE + '''
from putting_dune import alignment
probs = np.zeros((100, 100, 3)); probs[..., 0] = 0.5
probs[46:54, 93:99, 1] = 0.9   # near the right edge
probs[46:54, 46:54, 1] = 0.9
g = alignment.ImageAligner.process_detection_predictions(probs, buffer_width=0.1)
assert len(g.atom_positions) == 1, g.atom_positions
''')

plant('c33_grid_in_old_view', 'C33',
  'an aligner in hybrid mode whose postprocessing moves the frame',
  'the grid of a frame is expressed in the field of view before the postprocessing, while the drift includes it',
  [('alignment.py', "        pred_drift = pred_drift + postprocessed_drift\n        shifted_fov = fov.shift(geometry.Point(*-pred_drift))\n", "        pred_drift = pred_drift + postprocessed_drift\n")],
  BASE + '''
from putting_dune import alignment
import tensorflow as tf
class Model:
  def __init__(self): self.signatures = {'serving_default': self}
  def __call__(self, image):
    n = image.shape[-1]
    return {'output_0': tf.zeros((8, 8, 3 * n)), 'output_1': tf.zeros((2 * n,))}
a = alignment.ImageAligner('nowhere', hybrid=True)
a.__dict__['model'] = Model()
a.adaptive_normalization = False
m = graphene.PristineSingleDopedGraphene(grid_columns=20)
m.reset(np.random.default_rng(0))
p = m.grid.atom_positions; c = p.mean(0)
keep = np.linalg.norm(p - c, axis=1) < 8
g = mu.AtomicGridMaterialFrame(mu.AtomicGrid(p[keep], m.grid.atomic_numbers[keep]))
f0 = fov(c[0] - 10, c[1] - 10, c[0] + 10, c[1] + 10)
image = np.random.default_rng(0).random((16, 16))
a(image, f0, f0.material_frame_to_microscope_frame(g))
f1 = f0.shift(geometry.Point(0.25, -0.125))   # The stage reports a drift there was not.
seen = f0.material_frame_to_microscope_frame(g)
out, drift, _ = a(image, f1, seen)
drift = np.asarray(drift).reshape(-1)
assert np.abs(drift).max() > 0.05, drift
real = f1.shift(geometry.Point(-drift[0], -drift[1])).microscope_frame_to_material_frame(out).atom_positions
far = np.min(np.linalg.norm(real[:, None] - g.atom_positions[None], axis=-1), axis=1)
assert far.max() < 0.1, far.max()
''')

plant('c33_no_reset_between_rounds', 'C33',
  'at least two iterations of the alignment',
  'the history of the aligner is not reset between iterations, so that the start of the second round is aligned with the end of the first',
  [('pipeline/align_trajectories.py', "  n_iters = args.alignment_iterations\n", "  n_iters = args.alignment_iterations\n  aligner.reset(args.history_length)\n"),
   ('pipeline/align_trajectories.py', "    step_size = args.base_step_size + (1 - args.base_step_size) * i / n_iters\n    aligner.reset(args.history_length)\n", "    step_size = args.base_step_size + (1 - args.base_step_size) * i / n_iters\n")],
  BASE + '''
import pathlib
from putting_dune.pipeline import align_trajectories as at
log = []
class Aligner:
  def reset(self, n): log.append('reset')
  def __call__(self, image, f): log.append('frame'); return grid((.5, .5, 6)), np.zeros(2), None
args = at.Args(source_path=pathlib.Path('x'), target_path=pathlib.Path('y'), aligner_path=pathlib.Path('z'), alignment_iterations=2)
o = observation(grid((.5, .5, 6)), fov(), (), 1.0, np.zeros((4, 4)))
at.do_alignment(mu.Trajectory([o, o]), args, Aligner())
assert log == ['reset', 'frame', 'frame'] * 2, log
''')

plant('c34_order_of_predictions', 'C34',
  'neighbours listed in a cyclic permutation of their order by angle',
  'predicted rates are assigned to the wrong neighbours',
  [('rate_learning/learn_rates.py', "    rates = rates[np.argsort(neighbor_order)]\n", "    rates = rates[neighbor_order]\n")],
  BASE + '''
from putting_dune.rate_learning import learn_rates
import jax
p = learn_rates.LearnedTransitionRatePredictor(init_key=jax.random.PRNGKey(1), config=learn_rates.rate_learning_defaults.copy_and_resolve_references() if False else learn_rates.rate_learning_defaults)
class Fake:
  def __call__(self, x): return np.array([[10.0, 20.0, 30.0]], np.float32)
p.packaged_model = Fake()
a = 2 * np.pi / 3 * np.arange(3)
near = np.stack([np.cos(a), np.sin(a)], 1) * 1.42
import itertools
for order in itertools.permutations(range(3)):
  g = mu.AtomicGrid(np.concatenate([[[0, 0]], near[list(order)]]), np.array([14, 6, 6, 6]))
  r = p.predict(g, geometry.Point(0.7, 0.0), np.zeros(2), np.array([1, 2, 3]))
  assert [float(x) for x in r] == [10.0 * (k + 1) for k in order], (order, r)
''')

plant('c35_last_image_everywhere', 'C35',
  'a video of an episode with at least two images',
  'every frame of the video shows the image generated last',
  [('plotting_utils.py', "      axes[2].imshow(args['image'], cmap='gray')\n", "      axes[2].imshow(image, cmap='gray')\n")],
  BASE + '''
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
from putting_dune import plotting_utils, simulator_observers as so
g = mu.AtomicGridMaterialFrame(grid((1., 1., 14), (2., 2., 6), (3., 1., 6)))
o = so.EventObserver()
o.observe_reset(g, fov(0, 0, 4, 4))
o.observe_take_image(dt.timedelta(seconds=1), fov(0, 0, 4, 4))
for k in (1, 2):
  o.observe_generated_image(np.full((4, 4), float(k)))
  o.observe_apply_control(mu.BeamControlMaterialFrame(control(1.0, 1.0)))
  o.observe_take_image(dt.timedelta(seconds=1), fov(0, 0, 4, 4))
o.observe_generated_image(np.full((4, 4), 3.0))
anim = plotting_utils.generate_video_from_simulator_events(o.events, np.array([2.0, 2.0]))
shown = []
for args in anim.new_frame_seq():
  anim._func(args)
  shown.append(float(np.asarray(anim._fig.axes[2].images[0].get_array())[0, 0]))
assert shown == [1.0, 2.0, 3.0], shown
''')

plant('c36_shared_goal', 'C36',
  'an experiment from pixels that is built twice, e.g. for two environments',
  'all environments built from the published experiments from pixels share one goal',
  [('experiments/registry.py', "class _SingleSiliconGoalReachingFromPixels:\n", "class _SingleSiliconGoalReachingFromPixels:\n  _GOAL = goals.SingleSiliconGoalReaching()\n\n"),
   ('experiments/registry.py', "        feature_constructor=feature_constructors.ImageFeatureConstructor(),\n        goal=goals.SingleSiliconGoalReaching(),\n", "        feature_constructor=feature_constructors.ImageFeatureConstructor(),\n        goal=self._GOAL,\n")],
  BASE + '''
from putting_dune.experiments import registry
names = [n for n in registry._EVAL_EXPERIMENTS] if hasattr(registry, '_EVAL_EXPERIMENTS') else []
from putting_dune.feature_constructors import ImageFeatureConstructor
n = 0
maker = registry._SingleSiliconGoalReachingFromPixels()
a, b = maker(), maker()
assert a.goal is not b.goal and a.action_adapter is not b.action_adapter
''')

plant('c37_nearest_by_raw_angle', 'C37',
  'a goal and its best neighbour on either side of the direction opposite to +x',
  'the neighbour towards the goal is chosen by the difference of angles without regard to wrapping around',
  [('agents/agent_lib.py', "    neighbor_scores = np.linalg.norm(\n        neighbor_deltas - goal_delta[None], axis=-1\n    )\n    best_neighbor = np.argmin(neighbor_scores, axis=-1)\n    angles = geometry.get_angles(neighbor_deltas)\n",
    "    angles = geometry.get_angles(neighbor_deltas)\n    neighbor_scores = np.abs(angles - geometry.get_angles(goal_delta[None])[0])\n    best_neighbor = np.argmin(neighbor_scores, axis=-1)\n")],
  BASE + '''
import dm_env
from putting_dune.agents import agent_lib
a = agent_lib.GreedyAgent(np.random.default_rng(0))
for degrees in range(0, 360, 5):
  for off in (-20, 20):
    t = np.deg2rad(degrees + np.array([0, 120, 240]))
    near = np.stack([np.cos(t), np.sin(t)], 1) * 1.42
    g = 10 * np.array([np.cos(t[0] + np.deg2rad(off)), np.sin(t[0] + np.deg2rad(off))])
    o = np.concatenate([[0, 0], near.reshape(-1), g]).astype(np.float32)
    out = a.step(dm_env.restart(o))
    assert np.allclose(out, near[0], atol=1e-3), (degrees, off, out, near[0])
''')

plant('c40_jitter_accumulates', 'C40',
  'drifts accumulated when the earlier one has a jitter',
  'the jitter of the accumulated drift is that of the earlier drift if it moves more atoms',
  [('microscope_utils.py', "    return Drift(drift=new_drift_vector, jitter=self.jitter)\n", "    jitter = max(self.jitter, drift.jitter, key=len)\n    return Drift(drift=new_drift_vector, jitter=jitter)\n")],
  BASE + '''
a = mu.Drift(jitter=np.zeros((2, 2)), drift=np.array([1.0, 0.0]))
b = mu.Drift(jitter=np.ones((3, 2)), drift=np.array([0.0, 2.0]))
c = a.cumulate_drift(b)
assert np.allclose(c.drift, [1, 2]) and c.jitter.shape == (2, 2), c
c = b.cumulate_drift(a)
assert c.jitter.shape == (3, 2), c
''')

plant('c41_rates_turned_back', 'C41',
  'synthetic data that is turned by one or two thirds of a turn',
  'the rates are turned the other way than position and label',
  [('rate_learning/data_utils.py', "    rates = rotate_attributes(rates, rotation_factor)  # pytype: disable=wrong-arg-types  # jax-types\n", "    rates = rotate_attributes(rates, -rotation_factor)  # pytype: disable=wrong-arg-types  # jax-types\n")],
  BASE + '''
from putting_dune import constants
from putting_dune.rate_learning import data_utils
data, _ = data_utils.generate_synthetic_data(200, data_seed=3)
p, r = np.asarray(data['position']), np.asarray(data['rates'])
near = np.stack([np.cos(np.arange(3) * 2 * np.pi / 3), np.sin(np.arange(3) * 2 * np.pi / 3)], 1)
mean = np.asarray(constants.SIGR_PRIOR_RATE_MEAN).reshape(-1)
cov = np.asarray(constants.SIGR_PRIOR_RATE_COV)
for x, y in zip(p, r):
  want = []
  for k in range(3):
    t = -2 * np.pi * k / 3
    q = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]]) @ x - mean
    want.append(np.exp(-0.5 * q @ np.linalg.solve(cov, q)))
  want = np.array(want)
  assert np.argmax(want) == np.argmax(y), (x, want, y)
''')

plant('c42_dwell_time_only_for_networks', 'C42',
  'training one of the scikit-learn classifiers',
  'the dwell time is put into the context of the classification network only',
  [('pipeline/train_rate_learner.py', "      dwell_time_in_context=args.learner_type != LearnerType.RATE_NETWORK,\n", "      dwell_time_in_context=(\n          args.learner_type == LearnerType.CLASSIFICATION_NETWORK\n      ),\n")],
  BASE + '''
import sys, pathlib
from etils import epath
from putting_dune.pipeline import train_rate_learner as t
from putting_dune import io as pdio
seen = {}
keep = t.stack_data
def stack(data, **kw):
  out = keep(data, **kw); seen['context'] = out['context']; raise KeyboardInterrupt
t.stack_data = stack
t.load_trajectories_from_records = lambda p: []
t.transitions_to_datapoints = lambda *a, **k: [dict(next_state=0, beam_pos=np.zeros(2), seconds_between=1.5, current=0.1, voltage=60.0)] * 2
for kind in ('knn', t.LearnerType.KNN.value if hasattr(t.LearnerType.KNN, 'value') else t.LearnerType.KNN):
  with tempfile.TemporaryDirectory() as d:
    try: t.main(t.Args(source_path=epath.Path(d), workdir=epath.Path(d), learner_type=t.LearnerType.KNN))
    except KeyboardInterrupt: pass
  assert seen['context'].shape == (2, 3), seen['context'].shape
''')

plant('c32_brightest_of_buffer', 'C32',
  'a buffer around the image, with the brightest atom inside of the buffer but outside of the image',
  'the image is normalised by pixels which are cut away, so that its brightest pixel is not 1',
  [('imaging.py', """  image = image[
      buffer_width : buffer_width + image_size,
      buffer_width : buffer_width + image_size,
  ]

  # Normalize
  image = image / np.max(image)
""", """  # Normalize
  image = image / np.max(image)

  image = image[
      buffer_width : buffer_width + image_size,
      buffer_width : buffer_width + image_size,
  ]
""")],
  BASE + '''
from putting_dune import imaging
image = imaging.generate_clean_image(grid((.5, .5, 6), (.3, .6, 6), (1.2, .5, 14)), fov(), image_size=64, buffer_size=0.5)
assert image.shape == (64, 64) and image.max() == 1.0, image.max()
''')
