EXPL = 'stateless exhaustive exploration of the real code against a reference '

P('C01', 'Episodes of an environment follow the reset/step protocol',
  'An environment starts an episode (step type FIRST, reward 0) on reset and on the first step call after construction or after the end of an episode, whose action then has no effect; every other step is MID, or LAST when the goal says terminal (discount 0), truncated, or the step limit of the environment is reached (discount kept). Observations and actions match the published specs in shape, dtype and bounds on every step.',
  ['histories', 'configurations'],
  'Every history of reset/step calls and goal verdicts up to the bound, for every step limit, action adapter and observation kind.',
  'Unit tests take one short path; the protocol is about every order of reset, step, termination, truncation and step limit.',
  ['putting_dune/putting_dune_environment.py', 'putting_dune/run_helpers.py'],
  [('requires-reset flag', 'PuttingDuneEnvironment.step'), ('step limit wrapper', 'run_helpers.create_putting_dune_env')],
  EXPL + 'automaton', 'All histories to depth 5/6.')

P('C02', 'The simulated material stays a single-doped honeycomb lattice',
  'At every moment of an episode the simulated material is a honeycomb carbon sheet with bond length 1.42 angstrom containing exactly one silicon, whose atom positions never change within an episode; the silicon only ever moves to one of its three bonded neighbours, which become carbon and silicon respectively. A reset puts the silicon close to the centre of a newly rotated and shifted sheet, and grids that were handed out earlier are never modified. Over all resets every orientation and offset comes up; before the first one a sheet or simulator refuses to be used.',
  ['histories', 'configurations'],
  'Every sequence of exposures with every successor choice up to the bound, for each rate function and sheet, including repeated episodes.',
  'Tests check one generated sheet and one transition; the invariant must survive every history of transitions and resets.',
  ['putting_dune/graphene.py'],
  [('lattice generation', 'graphene.generate_pristine_graphene'), ('transition', 'PristineSingleDopedGraphene.apply_control')],
  EXPL + 'lattice', 'All walks to depth 3/4.')

P('C03', 'Beam exposures drive the silicon as a continuous-time Markov process',
  'During one beam exposure the silicon moves as a continuous-time Markov chain: waiting times are exponential with the total rate of the current state, the successor is chosen in proportion to its rate, rates are re-evaluated after every move, and every move that fits into the dwell time, and no other, takes place. Observers are told of each move in order, with its time since the exposure began and the grid after it; a state whose rates are all zero never changes.',
  ['histories', 'inputs'],
  'Every dwell time, rate table and sequence of waiting times (before, at, after the end of the exposure) and choices up to the bound.',
  'The outcome depends on the random draws; tests run a few seeds and cannot see off-by-one-transition or stale-rate errors.',
  ['putting_dune/graphene.py'],
  [('KMC loop', 'PristineSingleDopedGraphene.apply_control')],
  EXPL + 'kinetic Monte Carlo run', 'All draw sequences to depth 3/4.')

P('C04', 'The field of view follows the silicon',
  'After every observation of a simulated episode the silicon is visible within the central half of a square field of view with a side between 15 and 30 angstrom that stays the same throughout the episode. The field of view is centred on the silicon when the episode starts and whenever the silicon has left its central half (or the view), and otherwise does not move.',
  ['histories', 'configurations'],
  'Every sequence of silicon runs in six directions up to the bound, for every side and sheet placement.',
  'Whether the view moves depends on where the silicon happens to be after many steps; a test reaches one or two of those states.',
  ['putting_dune/simulator.py'],
  [('re-centring', 'PuttingDuneSimulator.step_and_image'), ('initial view', 'PuttingDuneSimulator.reset')],
  EXPL + 'tracker', 'All run sequences to depth 3/4.')

P('C05', 'Elapsed time, discount and reward of a step agree',
  'The elapsed time of an observation is the sum of the dwell times of the controls applied for it, in order, plus the image duration for every image taken (one, or two when the view had to be re-centred), and the observation lists exactly those controls as they were requested, which are applied with their voltage, current and dwell time. The discount of a step is 0.9967 to the power of the elapsed seconds; the reward is the same power on the step that reaches the goal and zero otherwise.',
  ['histories', 'inputs'],
  'Every combination of dwell times, image durations and re-centring in a step, over histories of several steps that reach the goal at every possible step.',
  'Tests use one dwell time and one image duration; the sum must hold for every list of controls and view changes.',
  ['putting_dune/simulator.py', 'putting_dune/putting_dune_environment.py', 'putting_dune/goals.py'],
  [('clock', 'PuttingDuneSimulator.step_and_image'), ('discount', 'PuttingDuneEnvironment.step'), ('reward', 'SingleSiliconGoalReaching.calculate_reward_and_terminal')],
  EXPL + 'clock', 'All control lists to length 3/4.')

P('C06', 'Observations contain exactly the atoms within the field of view',
  'A simulated observation, and the selection of the atoms within a field of view, contain exactly the atoms whose positions lie within the rectangle (borders included, grown or shrunk on every side by the tolerance asked for), each once and with its element. Observations express positions relative to the view, with (0, 0) the lower left and (1, 1) the upper right corner; the selection leaves them in the material frame; neither changes the material.',
  ['inputs', 'histories'],
  'Every rectangle, tolerance and layout of atoms from grids that include borders through atoms, empty and distant views; every history of exposures up to the bound.',
  'Tests use one square view near the origin; border, oblong and distant views are never reached.',
  ['putting_dune/graphene.py', 'putting_dune/microscope_utils.py', 'putting_dune/simulator.py'],
  [('selection and normalisation', 'PristineSingleDopedGraphene.get_atoms_in_bounds'), ('selection', 'MicroscopeFieldOfView.get_atoms_in_bounds')],
  EXPL + 'brute-force selection', 'All rectangles of the grid.')

P('C07', 'The event log of a simulation replays to its state',
  'An attached event log starts with the reset of the current episode (its initial material and view) and then lists, in the order they happened, every control applied (position in the material frame, dwell time), every move of the silicon (time within the exposure and the material after it), every image taken (duration and view) and every image generated (the image of the observation). Replaying it gives the current material, its times add up to the observed elapsed time, and entries never change later; a log attached late records from then on, a removed one no longer, and a reset starts the log afresh. Every observer is told of each new field of view before the image taken of it.',
  ['histories'],
  'Every history of resets, exposures with 0 to 9 moves, re-centring, images, and attaching or detaching a second log, up to the bound.',
  'Tests check one short episode; completeness and order matter for every history.',
  ['putting_dune/simulator_observers.py', 'putting_dune/simulator.py', 'putting_dune/graphene.py'],
  [('log', 'simulator_observers.EventObserver'), ('notifications', 'PuttingDuneSimulator.step_and_image')],
  EXPL + 'event sequence', 'All histories to depth 3/4.')

P('C08', 'Seeded environments replay exactly and independently',
  'After an environment is seeded, everything that follows (time steps, observations, images, goals, material) is a function of the seed and of the calls made since then. It does not depend on other environments that run in between, on the global random generators, or on what the environment did before it was seeded and reset; different seeds give different episodes.',
  ['schedules', 'histories'],
  'Every interleaving of the operations of two environments, for pairs of environment kinds, with the global generators disturbed; every history of reseeding up to the bound.',
  'A test compares two runs at best; hidden shared or unseeded state shows only under particular interleavings.',
  ['putting_dune/putting_dune_environment.py', 'putting_dune/run_helpers.py', 'putting_dune/simulator.py', 'putting_dune/action_adapters.py'],
  [('seeding', 'PuttingDuneEnvironment.seed')],
  'exhaustive exploration of all interleavings of the real environments against solo runs', 'All interleavings of 5+5 operations.')

P('C09', 'Goals are valid, reachable atoms and end the episode when reached',
  'The goal of an episode is the position, in the material frame, of an atom of the initial observation whose distance in angstrom from the silicon (the one nearest the centre of the view, if several) lies strictly within the configured range (0.1 to 50 by default); each such atom can be chosen, and without a silicon or without such an atom the reset fails with an error. The goal then stays where it is however the view moves; a step is terminal exactly when the silicon is within half a bond length (0.71 angstrom) of it, and earns 0.9967 to the power of the elapsed seconds exactly then, else 0.',
  ['inputs', 'histories'],
  'Every layout, view and possible choice of the generator; every sequence of silicon positions around the goal radius, with moving views and new goals, up to the bound.',
  'Tests sample a few goals in one square view; range borders, oblong views and persistence are not reached.',
  ['putting_dune/goals.py'],
  [('choice', 'SingleSiliconGoalReaching.reset'), ('verdict', 'SingleSiliconGoalReaching.calculate_reward_and_terminal')],
  EXPL + 'geometric model', 'All choices and sequences to depth 3/4.')

P('C10', 'Actions put the beam where, and for how long, they say',
  'Each action adapter turns an action into one beam control inside the view: the absolute adapter at the action, the delta adapter at its previous position plus the action, the relative adapter at the silicon plus the action (each coordinate limited to [-1, 1]) times the reach in angstrom, the material-frame adapter at the silicon plus the action in angstrom; positions are clipped to [0, 1]. The dwell time is the fixed one (1.5 s by default), or is interpolated over the configured range by the third coordinate limited to [0, 1]. Relative adapters refuse an observation that does not show exactly one silicon; published action bounds match.',
  ['inputs', 'histories'],
  'Every view, silicon place, action (inside, on, beyond the bounds, both precisions), dwell range and reach of a grid; every sequence of moves and resets up to the bound.',
  'Tests use a few actions on a square view; clipping, oblong views and accumulated moves are not reached.',
  ['putting_dune/action_adapters.py'],
  [('adapters', 'action_adapters.*.get_action'), ('bounds', 'action_adapters.*.action_spec')],
  EXPL + 'formulas', 'All actions of the grid.')

P('C11', 'Features describe the observed silicon, its neighbours and the goal',
  'State features are ten single-precision numbers: the position of the silicon, the vectors to its three nearest neighbours, and the vector from the silicon to the goal in angstrom, either with position relative to the view and unit neighbour vectors, or all in angstrom in the material frame. Pixel features are the image resized to 128x128x1 and the same goal vector. With several silicon atoms all features refer to the one nearest the centre of the view; without one, and for other kinds of goals, an error is raised.',
  ['inputs', 'configurations'],
  'Every lattice angle, silicon place, view, listing order, precision, silicon count and goal of a grid.',
  'Tests check one observation; order, oblong or distant views and several silicon atoms are not reached.',
  ['putting_dune/feature_constructors.py', 'putting_dune/graphene.py'],
  [('features', 'feature_constructors.*.get_features')],
  EXPL + 'formulas', 'All observations of the grid.')

P('C12', 'Frame conversions are exact inverses and keep everything else',
  'Converting between the material frame and a field of view is the affine map that takes the lower left corner to (0, 0) and the upper right corner to (1, 1), for points, arrays, grids and beam controls alike; the two directions undo each other, keep shapes, elements, dwell time, voltage and current (unset ones too), and modify nothing. Shifting a view, grid or control translates it; zooming or resizing a view keeps its centre and gives the size asked for.',
  ['inputs', 'histories'],
  'Every view and every composition of shift, zoom and resize up to the bound; every form of point from a grid inside, on and outside the view.',
  'Tests use one view; oblong or composed views and unset settings are not reached.',
  ['putting_dune/microscope_utils.py'],
  [('conversions', 'MicroscopeFieldOfView.microscope_frame_to_material_frame / material_frame_to_microscope_frame'), ('views', 'MicroscopeFieldOfView.shift / zoom / resize')],
  EXPL + 'rectangle', 'All compositions to depth 3/4.')

P('C39', 'Angles, rotations and nearest neighbours are geometrically right',
  'Rotating points by an angle turns them counter-clockwise about the origin, the numpy and jax versions agree, and successive rotations add up; the angle of a point is its counter-clockwise angle from the positive x axis. The three nearest neighbours of a query (four including the nearest itself) are the closest atoms in increasing distance, with their distances, for single queries and for arrays of queries.',
  ['inputs', 'histories'],
  'Every composition of rotations up to the bound on every layout; every query of a grid, in both precisions.',
  'Tests use a few points.',
  ['putting_dune/geometry.py'],
  [('geometry helpers', 'geometry.get_angles / rotate_coordinates / nearest_neighbors3')],
  EXPL + 'complex-number and brute-force reference', 'All compositions to depth 3/4.')

P('C13', 'Data written to messages reads back unchanged',
  'Grids, beam controls, fields of view, observations, transitions, trajectories, drifts and labelled trajectories that are converted to their message (or its bytes) and back equal the original up to single precision: same atoms in order, same elements, same controls with unset voltage or current still unset, same times, and each image or label image either unset or identical in shape, type and content. A second round trip changes nothing, and the original is not modified.',
  ['inputs', 'configurations'],
  'Every combination of the variants of every field, nested up to labelled trajectories of three observations.',
  'Tests serialise one filled-in example per class; optional fields, empty sequences and mixed images are combinations they never reach.',
  ['putting_dune/microscope_utils.py', 'putting_dune/putting_dune.proto'],
  [('serialisation', 'microscope_utils.*.to_proto / from_proto')],
  'exhaustive enumeration of field variants round-tripped through the real code', 'All combinations of field variants.')

P('C14', 'Record files return what was written, or a prefix and an error',
  'Reading a record file yields exactly the records that were written, in order, as bytes or as the requested type, however they were supplied, replacing an older file. When writing is interrupted, the file holds exactly the records before the interruption; a file cut off anywhere yields exactly the complete records before the cut, then ends or fails (it fails when the cut is within the content of a record); a file with any changed byte fails after yielding at most a prefix. Names with another extension are refused without creating a file.',
  ['crash_points', 'fault_sequences', 'inputs'],
  'Every sequence of records up to the length; every truncation point and every byte with three changes; every interruption of the writer.',
  'Tests write and read one intact file; no fault is ever injected.',
  ['putting_dune/io.py'],
  [('files', 'io.write_records / read_records')],
  'exhaustive fault enumeration: every truncation, every byte changed, every interruption', 'All faults of four files.', level='fault_enumeration')

P('C15', 'Grid equality is symmetric and total; equal listings hash alike',
  'Two grids are equal exactly when they have the same number of atoms and every atom has one of the same element within 0.001 angstrom in the other grid, in whatever order the atoms are listed; comparison is symmetric, works on empty grids, and modifies nothing. Grids that list the same atoms in a different order have the same hash.',
  ['inputs'],
  'All pairs of grids with up to 2/3 atoms, all displacements below and above the tolerance, all permutations of larger grids.',
  'Tests compare a handful of grids; asymmetric and empty comparisons are not reached.',
  ['putting_dune/microscope_utils.py'],
  [('comparison', 'AtomicGrid.__eq__ / __hash__')],
  'exhaustive enumeration of pairs of grids against a set comparison', 'All pairs up to 2/3 atoms.')

P('C16', 'Transition rates follow their formulas in every orientation',
  'A rate function gives one non-negative rate for each of the three bonded neighbours of the silicon, together with the material after the silicon moved to that neighbour (same positions, one silicon). The rates follow the documented formulas relative to the neighbour: inverse-square falloff with the distance between beam and neighbour (simple); a Gaussian around the peak given relative to the neighbour, whose value is the maximum rate (human prior); a mixture along the bond normalised by its highest component (mixture) - and so do not depend on where the lattice is, how it is oriented, or in which order atoms are listed.',
  ['inputs', 'configurations'],
  'Every model, lattice angle, place, sublattice, listing order and beam position of a grid.',
  'Tests check a few beam positions on one lattice; orientation errors cancel on symmetric ones.',
  ['putting_dune/graphene.py'],
  [('models', 'graphene.simple_canonical_rate_function / HumanPriorRatePredictor / GaussianMixtureRateFunction'), ('successors', 'PristineSingleSiGrRatePredictor')],
  EXPL + 'formulas', 'All combinations of the grid.')

P('C17', 'Mixture rate models survive storage and sample within range',
  'A mixture rate model stored in a directory and loaded again has identical parameters and rates, for every number of components and precision, also when the directory is nested, exists or holds an older model. Sampling is determined by the generator and gives at least one component, non-negative weights that sum to one, a maximum rate in [0.01, 1], distances in [-2, 3] and variances in [0.1, 5]; models are equal exactly when all parameters agree within 0.001.',
  ['inputs', 'histories'],
  'Every number of components, precision, scalar kind, place and order of stores; every seed up to the bound; every pair differing in one parameter.',
  'Tests store one model and sample one seed.',
  ['putting_dune/graphene.py'],
  [('storage', 'GaussianMixtureRateFunction.serialize_to_directory / deserialize_from_directory'), ('sampling', 'GaussianMixtureRateFunction.sample_new')],
  'exhaustive enumeration of parameters, places and store orders on the real code', 'All combinations; 400/2000 seeds.')


P('C18', 'A microscope agent follows the episode protocol on a real instrument',
  'On an observation that shows silicon, the microscope agent computes features, evaluates the goal once, and passes its agent one time step - FIRST for the first such step after construction or reset, LAST with discount 0 when the goal is reached, LAST when it is truncated, otherwise MID, with the reward of the goal and discount 0.9967 to the power of the elapsed seconds - and returns the controls the action adapter makes of the action the agent chose for it. On an observation without silicon it asks neither, and returns one control at (0, 0) with no dwell time, which does not use up the first step; its last goal verdict is that of the last step, or none after such a rescan. A reset resets goal (with the given generator and observation), features and adapter.',
  ['histories', 'configurations'],
  'Every history of resets and steps with every verdict up to depth 5/6, on stand-ins and on real experiments.',
  'Tests make single calls; the order of rescans, first steps and resets is a property of histories.',
  ['putting_dune/microscope_agent.py'],
  [('agent', 'MicroscopeAgent.reset / step')],
  EXPL + 'automaton', 'All histories up to depth 5 (quick) / 6 (thorough).')

P('C19', 'The log of a microscope agent records every step and episode once',
  'After every flush, and after leaving the context without an exception, the three log files hold each step taken so far once and in order (episode number, step within the episode counted from 1, reward, elapsed seconds, whether terminal), each episode with at least one step once (number, steps, sum of rewards, goal), and the observations of each such episode; an unfinished episode is included, flushing again changes nothing, and later steps continue it. Leaving with an exception does not flush, older files are replaced, and resets without steps or that fail neither add nor lose an episode. Logging does not change the controls and does not evaluate the goal a second time.',
  ['histories', 'fault_sequences'],
  'Every history of resets, failing resets, steps, rescans and flushes up to depth 4/5 with three endings.',
  'The test logs two episodes and flushes once at the end.',
  ['putting_dune/microscope_agent.py'],
  [('logger', 'MicroscopeAgentLogger')],
  EXPL + 'log', 'All histories up to depth 4 (quick) / 5 (thorough).')

P('C20', 'Evaluation runs each seed once and reports what happened',
  'Evaluating a suite puts the agent into evaluation mode, and for each seed in order seeds and resets the environment and alternates agent and environment steps, each fed the result of the other, until the episode ends or the simulated time plus the time spent in the agent (ten minutes by default) is used up. Each result holds the seed, the number of actions, the sum of the rewards, whether the episode ended with discount 0, and if so the seconds spent in agent and environment (otherwise NaN); it does not depend on the other seeds of the suite. With a video directory, one animation per seed is written there; no observer is left behind.',
  ['histories', 'schedules'],
  'Every sequence of step outcomes, simulated times and agent times until the timeout, with a scripted clock.',
  'Tests evaluate a few seeds with mocked environments; timeouts and boundaries need a controlled clock.',
  ['putting_dune/eval_lib.py'],
  [('evaluation', 'eval_lib.evaluate')],
  EXPL + 'loop', 'All histories of six suites and timeouts.')

P('C21', 'Aggregate results average over the runs that reached the goal',
  'Aggregating evaluation results gives the proportion of runs that reached the goal, and the averages of actions, agent seconds, environment seconds and reward over exactly those runs; if none did, the averages are 0, never NaN. The order of the results does not matter, and they are not modified.',
  ['inputs'],
  'Every sequence of up to 4/5 results from six templates, and longer ones.',
  'Tests aggregate two or three results.',
  ['putting_dune/eval_lib.py'],
  [('aggregation', 'eval_lib.aggregate_results')],
  'exhaustive enumeration of result sequences against exact averages', 'All sequences up to 4 (quick) / 5 (thorough).')

P('C36', 'Published experiments are what their name says and share nothing',
  'Looking up a name gives the experiment published or registered under it for that kind (evaluation, training, microscope), and an unknown name is a ValueError; registering never replaces an existing experiment. Each published experiment has its documented reach, dwell times, features, rates and greedy beam position, and every time it is built its adapters, features, goal and material are new objects. The environment factory seeds the environment, applies the step limit (600 unless told otherwise), images for the time the configuration says, and attaches the observers.',
  ['histories', 'configurations'],
  'Every history of registrations and look-ups up to depth 3/4; every experiment with every corner and middle of its action space; every environment built with every seed, limit and set of observers of a list.',
  'Tests look up one name of each kind.',
  ['putting_dune/experiments/registry.py', 'putting_dune/run_helpers.py'],
  [('registry', 'registry.create_*_experiment / register_eval_experiment'), ('factory', 'run_helpers.create_putting_dune_env')],
  EXPL + 'table', 'All histories up to depth 3 (quick) / 4 (thorough); all experiments.')

P('C37', 'Built-in agents act as documented',
  'The greedy agent picks the neighbour nearest to the goal and places the beam at its peak plus its fixed offset plus normal noise, turned from the positive x axis to the direction of that neighbour; given a transition function instead of a peak, the peak is the maximum of its first rate over the action range (five Angstroms to each side by default), up to the resolution. The random agent draws actions uniformly from the whole action space with the shape of the specification. Both are determined by their generator. A saved agent answers with what its model gives for the observation.',
  ['inputs', 'configurations'],
  'Every orientation, order, goal, peak, offset and noise of a grid; every peak of a grid; every corner of each action space.',
  'Tests check a single orientation and a few samples.',
  ['putting_dune/agents/agent_lib.py'],
  [('greedy', 'agent_lib.GreedyAgent'), ('random', 'agent_lib.UniformRandomAgent')],
  'exhaustive enumeration of inputs against complex arithmetic on the real code', 'All combinations of the grid.')

P('C22', 'Transitions are the consecutive pairs of each trajectory',
  'Converting trajectories yields, in order, exactly one transition per pair of consecutive observations of the same trajectory, never one across two trajectories. It carries the grids, fields of view, images and label images (or their absence) of both, and the controls of the earlier observation, or of the later one if the trajectory is said to hold previous controls. The command line function does the same from record file to record file.',
  ['inputs', 'histories'],
  'Every list of up to three trajectories and every pattern of observations with and without images, labels and controls.',
  'There is no test; off-by-one and stale-state errors depend on the sequence of observations.',
  ['putting_dune/pipeline/trajectories_to_transitions.py'],
  [('conversion', 'trajectories_to_transitions.trajectories_to_transitions')],
  'exhaustive enumeration of trajectory sets on the real code against the list of neighbouring pairs', 'All lengths up to 4/5, all patterns up to length 3/4.')

P('C23', 'Rate-learning labels say which neighbour the silicon moved to',
  'A transition with exactly one control, exactly one silicon before and after, three bonded neighbours before and little displacement becomes one datapoint: the label is 0 if the silicon stayed, else the number of the neighbour it moved to, counted counterclockwise from the one nearest to the beam; the beam is relative to the silicon in angstroms, turned so that this neighbour points right; time, current and voltage are those of the control. Orientation, position, fields of view and order of atoms do not matter. Any other transition is dropped, without effect on the others.',
  ['inputs', 'configurations'],
  'Every orientation, beam, movement, pair of views and order of atoms of a grid; every list of kept and dropped transitions up to a length; every displacement around the cutoff.',
  'There is no test; labels only go wrong for particular orientations, orders or views.',
  ['putting_dune/pipeline/train_rate_learner.py'],
  [('labels', 'train_rate_learner.transitions_to_datapoints'), ('stacking', 'train_rate_learner.stack_data'), ('loading', 'train_rate_learner.load_trajectories_from_records')],
  'exhaustive enumeration of scenes on the real code against complex arithmetic', 'All combinations of the grid; lists up to length 3/4.')

P('C24', 'Augmented rate-learning data is the orbit under the symmetry group',
  'Augmenting a dataset yields, for every transition, exactly its images under the rotations by the angle between neighbours and, if asked for, their reflections: the position is turned, the rates and the label move to the neighbour they belong to, label 0, time and context stay. The shapes of the arrays are kept, a missing context stays missing, and the input is not modified.',
  ['inputs', 'configurations'],
  'Every dataset up to two/three transitions over all labels and a grid of positions, every layout and number of neighbours, and every word of group operations up to a depth.',
  'Tests check shapes and a single rotation; composition and labels for every neighbour are not covered.',
  ['putting_dune/rate_learning/data_utils.py'],
  [('augmentation', 'data_utils.augment_data'), ('reflection', 'data_utils.reflect_transition'), ('rotation', 'data_utils.get_transition_rotations')],
  'exhaustive enumeration of datasets and group words on the real code against the symmetry group', 'All datasets up to 2/3 transitions, all words up to length 3/4.')

P('C25', 'Splitting a dataset never mixes rows or leaks test data',
  'Bootstrapping draws as many rows as there are, with replacement, and tests on exactly those not drawn; splitting partitions the rows, with the given fraction (rounded down) for testing. All arrays of a row stay together, and the result is determined by the key. Several splits are stacked, augmentation never puts images of a test row into training, and the position follows the given context.',
  ['inputs', 'configurations'],
  'Every dataset size up to 12/24, every key of a range, fractions, numbers of splits and modes.',
  'Tests check sizes for one dataset.',
  ['putting_dune/rate_learning/data_utils.py', 'putting_dune/rate_learning/learn_rates.py'],
  [('bootstrap', 'data_utils.bootstrap_dataset'), ('split', 'data_utils.split_dataset'), ('splits', 'learn_rates.create_dataset_splits')],
  'exhaustive enumeration of sizes, keys and modes on the real code, every row traced by its index', 'Sizes up to 12 (quick) / 24 (thorough).')

P('C26', 'The standard pose does not depend on how the scene is turned',
  'Standardising beam and neighbours turns the scene about the silicon so that the neighbour nearest to the beam points right, and lists the neighbours counterclockwise from it. The result is the same however the scene was turned before, distances are kept, and the input is not modified.',
  ['inputs'],
  'Every number of neighbours up to six, orientation, distortion, order of listing and beam of a grid, each turned by several angles.',
  'Tests check a few hand-made scenes.',
  ['putting_dune/rate_learning/data_utils.py'],
  [('standard pose', 'data_utils.standardize_beam_and_neighbors')],
  'exhaustive enumeration of scenes on the real code against complex arithmetic', 'All combinations of the grid.')

P('C35', 'Plots and videos show the state at the time they claim',
  'Durations are shown as minutes, seconds and hundredths, rounded with carry. A plotted frame shows every carbon and silicon atom, and the goal, beam, time and field of view it was given. The video of an episode has one frame per exposure, showing material, field of view, goal, beam, last generated image and elapsed time as they were when the exposure began, in both frames of reference, and one final frame.',
  ['histories', 'inputs'],
  'Every duration around the rounding and carry boundaries up to hours; every event sequence up to depth 3/4; every combination of optional elements.',
  'Tests only check that plotting does not raise.',
  ['putting_dune/plotting_utils.py'],
  [('format', 'plotting_utils.format_timedelta'), ('video', 'plotting_utils.generate_video_from_simulator_events'), ('frames', 'plotting_utils.plot_material_frame / plot_microscope_frame')],
  EXPL + 'replay of the events, frames read back through a movie writer', 'All event sequences up to depth 3 (quick) / 4 (thorough).')

P('C40', 'Drifts add up and are removed from observations',
  'Accumulating drifts adds the shared displacements and keeps the jitter of the later one, in any grouping. Applying a drift to an observation subtracts the jitter from the atoms and moves the field of view by the drift; atomic numbers, controls, time, image and label image are kept, and nothing is modified.',
  ['histories', 'inputs'],
  'Every sequence of up to four/five drifts, applied to every observation of a set.',
  'Tests only check serialisation of drifts.',
  ['putting_dune/microscope_utils.py'],
  [('accumulation', 'Drift.cumulate_drift'), ('application', 'Drift.apply_to_observation')],
  'exhaustive enumeration of drift sequences on the real code against exact sums', 'All sequences up to 4 (quick) / 5 (thorough).')

P('C41', 'Synthetic rate-learning data follows the prior it is drawn from',
  'Synthetic data from the prior pairs every position with the rate of the prior towards each neighbour, in counterclockwise order from the one to the right, in all orientations; the label is 0 or names a neighbour, agrees with rates that leave no choice, is 0 for no exposure and never 0 for an endless one; exposure times lie in the given range. For both kinds of data, training and test set have the documented shapes, differ, and are determined by the seed.',
  ['inputs', 'configurations'],
  'Every seed of a range, exposure range, width and kind; every row of the data.',
  'Tests only check the shapes and ranges.',
  ['putting_dune/rate_learning/data_utils.py'],
  [('synthetic data', 'data_utils.generate_synthetic_data')],
  'exhaustive enumeration of seeds and configurations; every generated row is compared with the documented prior', 'Seeds 0-4 (quick) / 0-39 (thorough).')

P('C27', 'Aligning point sets recovers their shift, and calls are independent',
  'Aligning a displaced, reordered or partial copy of a labelled point set with the original returns the displacement, whatever iterations, trimming, cutoff and initial guess are used, as long as the displacement is small against the distance of equally labelled points and within the limit. Points are only matched with points of their own label. The result of a call does not depend on earlier calls, and no argument is modified.',
  ['inputs', 'histories'],
  'Every displacement of a polar grid, order, subset, labelling and option; every sequence of alignments up to a depth.',
  'Tests align a handful of random grids.',
  ['putting_dune/alignment.py'],
  [('alignment', 'alignment.align_latest'), ('offsets', 'alignment.get_offsets')],
  'exhaustive enumeration of layouts, displacements and options on the real code against the true displacement', 'All combinations of the grid; sequences of alignments up to length 3.')

P('C28', 'The iterative aligner follows the drift of a sheet',
  'For observations of a jittered and drifting graphene sheet, in any order of atoms and with the silicon moving from site to site, the iterative aligner reports the drift of every frame, returns observations in the frame of reference of the first one, and keeps the numbers of the atoms. Atoms of the two sublattices are told apart. After a reset it behaves as if newly made, and neither observations nor grids are modified.',
  ['histories', 'configurations'],
  'Every sequence of drifts up to a depth, orientation, configuration of history, trimming and merging, and point of reset.',
  'Tests follow random drifts in one configuration.',
  ['putting_dune/alignment.py'],
  [('aligner', 'alignment.IterativeAlignmentFiltering'), ('lattice', 'alignment.classify_lattice_types'), ('scale', 'alignment.get_graphene_scale_factor')],
  EXPL + 'true displacements as oracle', 'All sequences up to depth 3 (quick) / 4 (thorough).')

P('C29', 'Cutting another view out of an image shows the same material',
  'Extracting a (square) field of view from an image gives an image of the same shape in which every pixel shows what the original showed at that place of the material, to the nearest pixel, and zero where the original shows nothing, however far away and however zoomed the new view is. Channels stay apart, a missing channel axis is added, and the image is not modified.',
  ['inputs', 'configurations'],
  'Every displacement by whole pixels in both directions beyond the image, zoom, shape, channels and dtype.',
  'Tests check a few displacements; wrong padding shows only for particular directions and zooms.',
  ['putting_dune/alignment.py'],
  [('cutting', 'alignment.pad_and_crop_images_by_fov')],
  'exhaustive enumeration of displacements and zooms on the real code, every pixel compared', 'All displacements of small images.')

P('C30', 'Merging observations joins the points of each atom and loses none',
  'Merging frames gives one point per atom: the mean of all its points, with their number, in order of first appearance; points further than the cutoff from every other stay on their own; empty frames are skipped. Merging by cliques does the same with weights, in any order. Atomic numbers move to the nearest merged atom within the threshold; the others get the default, or keep their given ones. No argument is modified.',
  ['histories', 'inputs'],
  'Every sequence of up to three/four frames listing any subset of the atoms in any order, every grouping, distances around the cutoff.',
  'Tests merge random grids and check counts.',
  ['putting_dune/alignment.py'],
  [('merging', 'alignment.naive_merge'), ('cliques', 'alignment.clique_merge'), ('numbers', 'alignment.propagate_atomic_numbers')],
  'exhaustive enumeration of frame sequences on the real code against exact means', 'All sequences up to length 3 (quick) / 4 (thorough).')

P('C31', 'Detected atoms are where the predicted classes say',
  'Every blob of carbon or silicon in the predicted classes gives one atom of that element near its centre, in coordinates with the origin at the bottom left, for every shape of image; blobs within the buffer are left out, and no atom is reported where there is no blob of its class. The atom detector shows the network the image at its size, normalised whatever its range, and returns an empty grid for an empty prediction.',
  ['inputs'],
  'Every position of a blob of each class, every set of up to three/four blobs, every pattern of a small window of pixels, every buffer.',
  'There is no test of the postprocessing.',
  ['putting_dune/alignment.py', 'putting_dune/atom_detector.py'],
  [('centroids', 'alignment.ImageAligner.compute_centroids'), ('detection', 'alignment.ImageAligner.process_detection_predictions'), ('detector', 'atom_detector.AtomDetector')],
  'exhaustive enumeration of class images on the real code, network replaced by given outputs', 'All positions on images of three shapes; all 3x3 (quick) / 4x4 (thorough) patterns.')

P('C32', 'Synthetic images and masks show the material where it is',
  'A mask marks exactly the pixels within the radius of an atom with its number, for every shape and field of view. A clean image is the normalised sum of equal spots, weighted by the numbers, at the places of the atoms: brightest at the atom, of the same width in both directions, moving with it, and showing atoms outside only through the buffer. Noise keeps shape and range, and images and parameters are determined by the seed.',
  ['inputs', 'configurations'],
  'Every set of up to two/three atoms, number, order, view, shape and exponent; every pixel position of an atom; every seed of a range.',
  'Tests check shapes and one position.',
  ['putting_dune/imaging.py'],
  [('mask', 'imaging.generate_grid_mask'), ('clean image', 'imaging.generate_clean_image'), ('noise', 'imaging.apply_*'), ('image', 'imaging.generate_stem_image')],
  'exhaustive enumeration of scenes on the real code, every pixel compared', 'All scenes of the grid; seeds of a range.')

P('C33', 'Images and trajectories are aligned frame by frame',
  'The image aligner shows its network the last images as the present field of view would have shown them, oldest first, empty ones after a reset, then the present one, normalised whatever its range; drift, labels and grid are those of the chosen time. In hybrid mode the grid corrects the drift relative to the first frame. Aligning a trajectory moves every field of view by the sum of its drifts, each trajectory on its own, keeps all else, and covers all files.',
  ['histories', 'configurations'],
  'Every sequence of views and resets up to a depth, history length and time index; every sequence of drifts, step size and number of iterations.',
  'Tests call the aligner only with its weights from the network, if at all.',
  ['putting_dune/alignment.py', 'putting_dune/pipeline/align_trajectories.py'],
  [('image aligner', 'alignment.ImageAligner.__call__'), ('trajectories', 'align_trajectories.do_alignment'), ('pipeline', 'align_trajectories.main')],
  EXPL + 'stand-ins for network and aligner, own cutting of images', 'All sequences up to depth 3 (quick) / 4 (thorough).')

P('C34', 'A rate predictor predicts from the parameters it has now',
  'A learned rate predictor gives the rates of its current network(s) - the mean over the ensemble of total rate times probability - for the beam in the standard pose, with current and voltage if used, in the order in which the neighbours were listed: after any sequence of training, distilling, saving, loading into itself or a new predictor, and predicting. The loss is the negative log likelihood of the transitions; an epoch uses every row at most once and fills every batch; distillation compares with the mean of the teachers. Training works with and without context, changes the parameters, and is determined by the key.',
  ['histories', 'inputs', 'configurations'],
  'Every sequence of train/distill/save/load/predict up to a depth, configuration of the network, orientation, order of neighbours and beam position.',
  'Tests train once and predict once; stale packaged models show only for particular orders of calls.',
  ['putting_dune/rate_learning/learn_rates.py'],
  [('predictor', 'learn_rates.LearnedTransitionRatePredictor'), ('loss', 'learn_rates.batched_loss_fn'), ('epoch', 'learn_rates.train_epoch'), ('distillation', 'learn_rates.distill_loss')],
  EXPL + 'evaluation of the network in numpy', 'All sequences up to length 3-4 (quick) / 4-5 (thorough).')

P('C42', 'The rate learner trains on what the records say and keeps it all',
  'For every type of learner, with or without voltage and current, running the rate learner on record files trains each model on the datapoints of their transitions - label, dwell time (1 for classifiers), and as inputs current and voltage if used, dwell time for classifiers, and beam position - split and augmented as asked. It stores parameters, configuration, metrics, and a model that gives the rates of a beam position in the median context; for scikit-learn classifiers each model, and the ensemble, whose probabilities are the mean of theirs. Maps of the rates are for the highest, lowest and median context; plots of transitions show atoms, beam and numbered neighbours at their places, plots of data every beam position under the direction its label stands for; each is made only if asked for.',
  ['configurations', 'inputs'],
  'Every combination of learner, context, splitting, augmentation, distillation and outputs.',
  'The pipeline has a test of one configuration; others fail only when they are used.',
  ['putting_dune/pipeline/train_rate_learner.py', 'putting_dune/rate_learning/learn_rates.py'],
  [('pipeline', 'train_rate_learner.main'), ('classifiers', 'train_rate_learner.get_sklearn_classifier'), ('plots', 'train_rate_learner.plot_transition'), ('maps', 'learn_rates.visualize_rates')],
  'exhaustive enumeration of configurations on the real pipeline, training of networks replaced by stand-ins, against datapoints computed independently', 'All combinations of the options; scenes of a grid.')

P('C44', 'Training steps minimise the losses they report, over what they are meant to',
  'For every batch, a training step of the image aligner, atom detector or graph aligner reports losses, errors and accuracies of the parameters before it - cross entropy and share of right classes over pixels, squared and plain lengths of displacement errors, over all frames or only the last ones as configured, local graph losses counting only real atoms - and moves the parameters down the gradient of the weighted sum of its losses. An evaluation step reports the same and leaves parameters and step count alone. Over any sequence of steps metrics are averages over its batches.',
  ['inputs', 'histories'],
  'All labellings of small batches, and all sequences of training and evaluation steps up to a depth.',
  'No test trains; a wrong axis gives plausible numbers.',
  ['putting_dune/image_alignment/train.py', 'putting_dune/atom_detection/train.py', 'putting_dune/graph_alignment/train.py'],
  [('images', 'image_alignment.train.train_step'), ('images', 'image_alignment.train.eval_step'), ('detector', 'atom_detection.train.train_step'), ('detector', 'atom_detection.train.eval_step'), ('graphs', 'graph_alignment.train.train_step')],
  'explicit-state exploration of sequences of steps of the real training code on a linear model, against losses and gradients in closed form', 'Batches of up to two images of four labels in total; up to 3 (thorough: 4) steps.')

P('C45', 'Training data show image, mask and displacement of the same places and frames',
  'For images and masks of any size, each batch of a training dataset has the size asked for, and every pixel of an image and of its mask comes from the same pixel of the source, one that lies there; frames keep their order as channels, intensities are scaled to [0, 1] for alignment, classes are background, carbon, silicon as one-hot vectors. If only the last frame counts, mask and displacement are those of the last frame while images show all. Training and test data come from their own splits with the seed and batch size given, and each of several processes starts at an index of its own.',
  ['inputs', 'configurations'],
  'All sizes of a grid, numbers of frames, and options.',
  'The transformations have no tests, and misplaced labels only show as worse models.',
  ['putting_dune/image_alignment/dataset.py', 'putting_dune/atom_detection/dataset.py', 'putting_dune/graph_alignment/dataset.py'],
  [('images', 'image_alignment.dataset.ResizeImage'), ('classes', 'image_alignment.dataset.RemapAndOneHotMask'), ('frames', 'image_alignment.dataset.SelectFinalTimestep'), ('detector', 'atom_detection.dataset.make_dataset')],
  'exhaustive enumeration of sizes and options through the real transformations, with images that number their pixels', 'Images of up to 8 x 8 pixels, up to 3 (thorough: 5) frames.', level='exploration')

P('C48', 'Training can be interrupted anywhere and resumed, and trains what was asked',
  'For every trainer (image aligner, atom detector, graph aligner), number of epochs, steps and batch size: each epoch trains on the number of batches asked for, evaluates, reports the averages of both, and saves parameters, step count and metrics under its number; after the last epoch the state is saved once more. After a crash at any point, a new run continues from the newest checkpoint, so that in total every epoch is trained exactly once, whatever the history of crashes. The best checkpoint is the most accurate one, or for graphs that with the lowest loss; names of graph network modules survive saving and restoring.',
  ['crash points', 'histories', 'configurations'],
  'Crashes at every batch and before and after every save, followed by a second crash at a save.',
  'No test runs a trainer, let alone interrupts it.',
  ['putting_dune/image_alignment/train.py', 'putting_dune/atom_detection/train.py', 'putting_dune/graph_alignment/train.py'],
  [('images', 'image_alignment.train.train'), ('detector', 'atom_detection.train.train'), ('graphs', 'graph_alignment.train.train'), ('keys', 'graph_alignment.train.sanitize_state_keys')],
  'exhaustive enumeration of crash points on the real trainers with stand-ins for checkpoint store, loader and networks, against an independent simulation', 'Up to 3 epochs of up to 6 batches; two crashes.', level='fault_enumeration')

P('C38', 'Microscope data are converted frame by frame and uploaded dataset by dataset',
  'For every sequence of frames of a dataset, its trajectory has an observation per recorded frame (padding is cut): atoms at their relative places, silicon exactly where dopants were found, the field of view moved by the sum of pixel shifts so far, the image, and, if the beam was recorded, one control with its position in the microscope frame and its dwell time, which elapsed time includes. Uploading a directory sends every dataset in it, as one record in an object of its own, whatever the names; broken ones are reported and skipped, and finding none ends with an error.',
  ['inputs', 'histories'],
  'Every sequence of kinds of frames and of pixel shifts, scale of label images, padding, and set of dataset names and states.',
  'The upload has no tests; misplaced beams and replaced objects only show in what is learned later.',
  ['putting_dune/pipeline/upload_microscope_data.py'],
  [('reading', 'upload_microscope_data.load_dataset'), ('conversion', 'upload_microscope_data.convert_dataset_to_proto'), ('upload', 'upload_microscope_data.main')],
  'explicit-state enumeration of sequences of frames and of sets of datasets through the real conversion and upload, with a bucket that records', 'Datasets of 4 (thorough: 5) frames of five kinds; up to 9 datasets.')

P('C43', 'Plots of rate functions show the rates of the beam positions they name',
  'For every orientation and place of a lattice, order of atoms, rate function, number of points, extent and radius: the curve along a neighbour shows at each multiple of the vector to it the rate of moving there; curves along an arc show the total rate and that towards each neighbour at each angle on the circle asked for; the map asks for the rates of a raster around the silicon, and neighbours have the colour of the contours of the rates towards them. Grids without silicon are refused.',
  ['inputs', 'configurations'],
  'Every lattice, rate function and option of a grid.',
  'No test looks at what these plots show.',
  ['putting_dune/plotting_utils.py'],
  [('map', 'plotting_utils.plot_rate_function3'), ('vector', 'plotting_utils.plot_rate_along_neighbor_vector3'), ('arc', 'plotting_utils.plot_rate_along_arc3')],
  EXPL + 'curves, markers and contours read from the axes, and rates computed independently', 'Five orientations, two places, three orders, three rate functions, with options.', level='exploration')

P('C46', 'Networks respect the symmetries of what they are shown',
  'For every arrangement of atoms, the graph network gives each atom the same outputs, and the frames the same global outputs, whatever the order of atoms within frames, the place of the whole, spare room for edges, width of the halo, and which positions a list of neighbours was made for before; atoms too far from others to be connected do not affect their outputs. Image networks give outputs of the size of the image with the channels asked for, shifting the image by a multiple of the stride shifts outputs by as much, and a pixel only affects its surroundings.',
  ['inputs', 'configurations'],
  'Every permutation, shift, room for edges and arrangement; every place of a bright pixel and size of image.',
  'Networks are only run once per test; broken symmetries just make models worse.',
  ['putting_dune/graph_alignment/model.py', 'putting_dune/image_alignment/model.py', 'putting_dune/atom_detection/model.py'],
  [('graphs', 'graph_alignment.model'), ('aligner', 'image_alignment.model'), ('detector', 'atom_detection.model')],
  EXPL + 'the same network on transformed inputs', 'Five arrangements of two frames of three atoms; images of up to 32 x 32 pixels.', level='exploration')

P('C47', 'Networks are packaged and loaded whole, or not at all',
  'Packaging writes the best checkpoint - not the newest - as a model that, once loaded, gives the outputs of the network that was trained, wherever it is started, leaving the working directory and, unless asked to overwrite it, an existing model alone. When loading a packaged model fails or the process is killed at any operation on files, or the package is torn, no incomplete model is ever left behind as if complete: any later sequence of loads fails or gives the outputs of the package, and an old model is only replaced by a complete one.',
  ['crash points', 'histories', 'configurations'],
  'A failure or kill before and within every operation on files, for first loads and reloads, followed by all sequences of loads; all orders of quality of checkpoints and kinds of paths.',
  'No test packages or loads a model, let alone interrupts it.',
  ['putting_dune/image_alignment/save_model.py', 'putting_dune/atom_detection/save_model.py', 'putting_dune/alignment.py', 'putting_dune/atom_detector.py', 'putting_dune/experiments/registry.py'],
  [('aligner', 'image_alignment.save_model'), ('detector', 'atom_detection.save_model'), ('loading', 'alignment.ImageAligner.from_path'), ('loading', 'atom_detector.AtomDetector.from_url'), ('loading', 'registry._TfAgentCreator')],
  'exhaustive enumeration of failures and kills at file operations of the real code, followed by all sequences of loads', 'All operations; up to 2 (thorough: 3) further loads.', level='fault_enumeration')

P('C49', 'A picture of the environment shows its current state and disturbs nothing',
  'A picture rendered at any point of an episode - after a reset, between steps, after the last one, several times in a row - is a square colour image that shows the carbon and silicon atoms of the current observation, the goal (if it is a place) in its view, and the beam of the last control. Rendering changes neither the picture of the next rendering nor any later result of the environment, and leaves no figure open.',
  ['histories', 'configurations'],
  'Every history of resets, steps and renderings up to the depth, for every kind of environment.',
  'No test renders an environment after a step; effects on later steps only show by comparison with an environment that is not rendered.',
  ['putting_dune/putting_dune_environment.py', 'putting_dune/plotting_utils.py'],
  [('picture', 'PuttingDuneEnvironment.render'), ('axes', 'plotting_utils.plot_microscope_frame')],
  EXPL + 'an environment that is never rendered, and the axes of each picture', 'All histories up to depth 4 (thorough: 6).')

P('C50', 'Processes that load the same model at the same time all get it whole',
  'Whatever the schedule of processes that fetch and unpack the same model (image aligner, atom detector, agent) for the first time, each of them gets the complete model, even if one of them is killed anywhere, and so does every later load. If some of them reload an existing aligner, each reader gets the old or the new model as a whole, a reloader that succeeds the new one, and nobody a mixture.',
  ['schedules', 'crash points'],
  'All interleavings of the operations on files of two or three processes up to the number of preemptions, and kills.',
  'Races of processes depend on the schedule; no test starts two.',
  ['putting_dune/alignment.py', 'putting_dune/atom_detector.py', 'putting_dune/experiments/registry.py'],
  [('aligner', 'alignment.ImageAligner.from_path'), ('detector', 'atom_detector.AtomDetector.from_url'), ('agent', 'registry._TfAgentCreator')],
  'stateless model checking: the real loaders under a controlled scheduler that enumerates all schedules up to a number of preemptions and kills', 'Two processes with up to 2 preemptions, three with 1 (thorough: 3 and 2).')
