"""Fifth batch of planted bugs: python3 -m tools.bugs.b5 (from /verif)."""
from tools.bugs.b2 import BASE
from tools.plant import plant

ENV = '''
from putting_dune import action_adapters, feature_constructors, putting_dune_environment
env = putting_dune_environment.PuttingDuneEnvironment(
  graphene.PristineSingleDopedGraphene(rate_function=graphene.PristineSingleSiGrRatePredictor(
    canonical_rate_prediction_fn=graphene.simple_canonical_rate_function)),
  action_adapters.RelativeToSiliconActionAdapter(),
  feature_constructors.SingleSiliconPristineGrapheneFeatureConstuctor(),
  goals.SingleSiliconGoalReaching())
'''

plant('c11_still_silicon_keeps_features', 'C11',
  'silicon which leaves the central half, so that the view is centred on it again and it has the place in it that it had before',
  'the features are not computed again when the silicon is where it was in the view, so that the goal is shown as far as it was from the old view',
  [('putting_dune_environment.py', "    observation = self._feature_constructor.get_features(\n        self.last_microscope_observation, self.goal\n    )\n",
    "    observation = self._feature_constructor.get_features(\n        self.last_microscope_observation, self.goal\n    )\n"
    "    if not isinstance(observation, dict):\n"
    "      # A silicon that did not move has the features that it had.\n"
    "      previous = getattr(self, '_previous_features', None)\n"
    "      if previous is not None and np.allclose(observation[:8], previous[:8], atol=1e-3):\n"
    "        observation = previous\n"
    "      self._previous_features = observation\n")],
  BASE + ENV + '''
from unittest import mock
import dataclasses
env.seed(3); env.reset()
inner = env.sim.step_and_image
d = np.zeros(2)
def moved(**k):
  o = inner(**k)
  f = mu.MicroscopeFieldOfView(geometry.Point(*(np.array(o.fov.lower_left.coords)[0] + d)), geometry.Point(*(np.array(o.fov.upper_right.coords)[0] + d)))
  return dataclasses.replace(o, fov=f)
env.sim.step_and_image = moved
far = np.array([1., 1.], np.float32)
with mock.patch.object(type(env.goal), 'calculate_reward_and_terminal', lambda *_: goals.GoalReturn(0., False, False)):
  for d in (np.zeros(2), np.array([2.84, 0.]), np.array([5.68, 1.])):
    ts = env.step(far)
    o = env.last_microscope_observation
    want = env._feature_constructor.get_features(o, env.goal)
    assert np.allclose(ts.observation, want, atol=1e-5), (ts.observation, want)
''')

plant('c10_reach_in_first_view', 'C10',
  'an adapter that is used with views of different sizes, as in the second episode of an environment',
  'the reach relative to the view is worked out once for each adapter, from the first view it is used with',
  [('action_adapters.py', "    fov = previous_observation.fov\n    cell_radius_x = self._max_distance_angstroms / (\n        fov.upper_right.x - fov.lower_left.x\n    )\n    cell_radius_y = self._max_distance_angstroms / (\n        fov.upper_right.y - fov.lower_left.y\n    )\n    cell_radius = np.asarray([cell_radius_x, cell_radius_y])\n",
    "    if getattr(self, '_cell_radius', None) is None:\n      fov = previous_observation.fov\n      self._cell_radius = self._max_distance_angstroms / np.asarray([\n          fov.upper_right.x - fov.lower_left.x,\n          fov.upper_right.y - fov.lower_left.y,\n      ])\n    cell_radius = self._cell_radius\n")],
  BASE + '''
from putting_dune import action_adapters
a = action_adapters.RelativeToSiliconActionAdapter()
for side in (10.0, 20.0, 15.0):
  o = observation(grid((0.5, 0.5, 14), (0.6, 0.5, 6)), fov(0, 0, side, side))
  (c,) = a.get_action(o, np.array([1.0, 0.0], np.float32))
  assert abs(c.position.x - 0.5 - 1.42 / side) < 1e-6, (side, c)
''')
