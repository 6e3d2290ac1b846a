"""Fourth batch of planted bugs: python3 -m tools.bugs.b4 (from /verif)."""
from tools.bugs.b2 import BASE
from tools.plant import plant

PICTURE = '''
import dataclasses
from putting_dune import plotting_utils, run_helpers
from putting_dune.experiments import registry
e = registry.create_train_experiment('relative_simple_rates')
env = run_helpers.create_putting_dune_env(0, get_adapters_and_goal=e.get_adapters_and_goal, get_simulator_config=e.get_simulator_config)
env.seed(0); env.reset()
env = env.environment
shown = []
inner = plotting_utils.plot_microscope_frame
def spy(ax, *args): inner(ax, *args); shown.append((ax, args))
plotting_utils.plot_microscope_frame = spy

def move(x, y):
  o = env.last_microscope_observation
  d = np.array([x, y])
  env.last_microscope_observation = dataclasses.replace(o, fov=mu.MicroscopeFieldOfView(
    geometry.Point(*(np.array(o.fov.lower_left.coords)[0] + d)), geometry.Point(*(np.array(o.fov.upper_right.coords)[0] + d))))
def goal():
  return env.last_microscope_observation.fov.material_frame_to_microscope_frame(env.goal.goal_position_material_frame)
'''

plant('c49_goal_in_first_view', 'C49',
  'a rendering after the view has moved, in an episode that was rendered before',
  'the goal is converted once per episode, and so drawn at its place in the view of the first rendering',
  [('putting_dune_environment.py', "      goal_position = fov.material_frame_to_microscope_frame(\n          goal.goal_position_material_frame\n      )\n",
    "      where = goal.goal_position_material_frame\n"
    "      if getattr(self, '_drawn_goal', (None,))[0] is not where:\n"
    "        self._drawn_goal = (where, fov.material_frame_to_microscope_frame(where))\n"
    "      goal_position = self._drawn_goal[1]\n")],
  BASE + PICTURE + '''
for _ in range(2):
  env.render()
  assert np.allclose(shown[-1][1][1], goal())
  move(3., -2.)
''')

plant('c49_widened_for_goal', 'C49',
  'a goal which is above or to the right of the view',
  'the picture is widened to the goal, so that it no longer shows the view',
  [('plotting_utils.py', "  _plot_atomic_grid(ax, grid, goal_position, control_position, timedelta)\n\n  ax.set_xticks([])\n  ax.set_yticks([])\n  ax.set_xlim((0, 1))\n  ax.set_ylim((0, 1))\n",
    "  _plot_atomic_grid(ax, grid, goal_position, control_position, timedelta)\n\n  limit = 1 if goal_position is None else max(1, np.max(goal_position))\n  ax.set_xticks([])\n  ax.set_yticks([])\n  ax.set_xlim((0, limit))\n  ax.set_ylim((0, limit))\n")],
  BASE + PICTURE + '''
for _ in range(2):
  env.render()
  assert shown[-1][0].get_xlim() == (0, 1), goal()
  move(-40., 0.)
''')

AGENTS = '''
import zipfile
from unittest import mock
from putting_dune.experiments import registry
root = tempfile.TemporaryDirectory()
archive = os.path.join(root.name, 'archive.zip')
with zipfile.ZipFile(archive, 'w') as z:
  z.writestr('an_agent/weights', b'1234')
registry.__file__ = os.path.join(root.name, 'registry.py')
registry.tf_eval_agent.TfEvalAgent = lambda path: open(path + '/weights').read()
def fetch(url, to):
  with open(archive, 'rb') as a, open(to, 'wb') as b: b.write(a.read())
registry.urllib.request.urlretrieve = fetch
create = registry._TfAgentCreator('an_agent', 'http://nowhere')
assert '1234' == create(None, None)
'''

plant('c50_folder_made_by_another', 'C50',
  'another process creates the folder of models between the look and the creation',
  'the process fails instead of loading its agent',
  [('experiments/registry.py', "    model_weights_path.mkdir(parents=False, exist_ok=True)\n", "    if not model_weights_path.exists():\n      model_weights_path.mkdir(parents=False)\n")],
  BASE + AGENTS.replace("assert '1234' == create(None, None)", '''
mkdir = os.mkdir
def late(path, *args, **kwargs):
  if str(path).endswith('model_weights'):
    with mock.patch('os.mkdir', mkdir): create(None, None)  # another process
  return mkdir(path, *args, **kwargs)
with mock.patch('os.mkdir', late):
  assert '1234' == create(None, None)
'''))

plant('c50_cleans_up_after_others', 'C50',
  'one process begins to fetch while another has fetched half of the agent',
  'what looks like the rest of an interrupted fetch is removed, although it is another process at work',
  [('experiments/registry.py', "      logging.info(\"Couldn't find agent checkpointing. Downloading...\")\n",
    "      for leftover in model_weights_path.glob('tmp*'):\n        leftover.rmtree()\n      logging.info(\"Couldn't find agent. Downloading...\")\n")],
  BASE + AGENTS.replace("assert '1234' == create(None, None)", '''
def slow(url, to):
  fetch(url, to)
  registry.urllib.request.urlretrieve = fetch
  create(None, None)  # another process
registry.urllib.request.urlretrieve = slow
assert '1234' == create(None, None)
'''))
