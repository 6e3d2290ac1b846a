From 165430769fb266c1ef09e6135733a95bd5fd1c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 01/54] fix: serialize a transition's label images
 independently of its images

---
 putting_dune/microscope_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index 0930f2f..f20ac76 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -701,12 +701,12 @@ class Transition(ProtoModel[putting_dune_pb2.Transition]):
 
     label_image_before = (
         tf.make_tensor_proto(self.label_image_before)
-        if self.image_before is not None
+        if self.label_image_before is not None
         else None
     )
     label_image_after = (
         tf.make_tensor_proto(self.label_image_after)
-        if self.image_after is not None
+        if self.label_image_after is not None
         else None
     )
 
-- 
2.43.0


From 4d37b921548b2edc136eac2de8a638de31dc4bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 02/54] fix: keep the fractional part of a drift read from a
 proto

---
 putting_dune/microscope_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index f20ac76..d4d4070 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -812,7 +812,7 @@ class Drift(ProtoModel[putting_dune_pb2.Drift]):
     num_atoms = len(proto_drift.jitter)
 
     jitter = np.empty((num_atoms, 2), dtype=np.float32)
-    drift = np.empty(2, dtype=np.int32)
+    drift = np.empty(2, dtype=np.float32)
 
     for i, atom in enumerate(proto_drift.jitter):
       jitter[i, 0] = atom.x
-- 
2.43.0


From e49168c76e196847c52529b6e2ed826f3aeb9dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 03/54] fix: keep the label image of an observation that a
 drift is applied to

---
 putting_dune/microscope_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index d4d4070..d7b8177 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -803,6 +803,7 @@ class Drift(ProtoModel[putting_dune_pb2.Drift]):
         controls=observation.controls,
         elapsed_time=observation.elapsed_time,
         image=observation.image,
+        label_image=observation.label_image,
     )
     return shifted_observation
 
-- 
2.43.0


From bcd350df7b83508b8a2acd8d88a31db7fe73ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 04/54] fix: make the comparison of atomic grids symmetric and
 total

---
 putting_dune/microscope_utils.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index d7b8177..1f22f8b 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -156,19 +156,24 @@ class AtomicGrid(ProtoModel[putting_dune_pb2.AtomicGrid]):
       return False
     if self.atomic_numbers.shape != other.atomic_numbers.shape:
       return False
+    if not self.atom_positions.shape[0]:
+      return True
+
+    # Every atom needs a counterpart in the other grid, in both directions:
+    # otherwise several atoms could share one and leave others without any.
+    for left, right in ((self, other), (other, self)):
+      neighbor_distances, neighbor_indices = (
+          neighbors.NearestNeighbors(n_neighbors=1)
+          .fit(left.atom_positions)
+          .kneighbors(right.atom_positions)
+      )
 
-    neighbor_distances, neighbor_indices = (
-        neighbors.NearestNeighbors(n_neighbors=1)
-        .fit(self.atom_positions)
-        .kneighbors(other.atom_positions)
-    )
+      neighbor_indices = neighbor_indices.reshape(-1)
+      if (right.atomic_numbers != left.atomic_numbers[neighbor_indices]).any():
+        return False
 
-    neighbor_indices = neighbor_indices.reshape(-1)
-    if (other.atomic_numbers != self.atomic_numbers[neighbor_indices]).any():
-      return False
-
-    if (neighbor_distances > 1e-3).any():
-      return False
+      if (neighbor_distances > 1e-3).any():
+        return False
 
     return True
 
-- 
2.43.0


From 6659a0d165fccdac3c271ee0b1af6f027c4e18d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 05/54] fix: read an unset beam voltage or current as unset,
 not as zero

---
 putting_dune/microscope_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index 1f22f8b..3f84971 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -220,7 +220,10 @@ class BeamControl(ProtoModel[putting_dune_pb2.BeamControl]):
     position = proto_point_to_shapely_point(control.position)
     dwell_time = dt.timedelta(seconds=control.dwell_time_seconds)
 
-    return cls(position, dwell_time, control.voltage_kv, control.current_na)
+    voltage_kv = control.voltage_kv if control.HasField('voltage_kv') else None
+    current_na = control.current_na if control.HasField('current_na') else None
+
+    return cls(position, dwell_time, voltage_kv, current_na)
 
   def to_proto(self) -> putting_dune_pb2.BeamControl:
     """Creates a proto from this object."""
-- 
2.43.0


From c19b3a1d17ebd666a85241118849539b7983665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 06/54] fix: orient the human prior's rates towards the
 neighbor they belong to

---
 putting_dune/graphene.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/putting_dune/graphene.py b/putting_dune/graphene.py
index 746c636..7abfc1d 100644
--- a/putting_dune/graphene.py
+++ b/putting_dune/graphene.py
@@ -220,9 +220,12 @@ class HumanPriorRatePredictor:
     relative_beam_position /= constants.CARBON_BOND_DISTANCE_ANGSTROMS
     rates = np.zeros((neighbor_indices.shape), dtype=float)
     for i, angle in enumerate(angles):
-      rotated_mean = geometry.rotate_coordinates(self.mean, -angle)
+      # Rotate into the frame in which the neighbor is located at (1, 0).
+      rotated_beam_position = geometry.rotate_coordinates(
+          relative_beam_position, -angle
+      )
       rate = single_silicon_prior_rates(
-          relative_beam_position, rotated_mean, self.cov, self.max_rate
+          rotated_beam_position, self.mean, self.cov, self.max_rate
       )
       rates[i] = np.asarray(rate)
 
-- 
2.43.0


From 25d85e05f6f90fcd8c7a195d86e2dd5b30e2fe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 07/54] fix: do not force a transition after an hour of
 exposure

---
 putting_dune/graphene.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/putting_dune/graphene.py b/putting_dune/graphene.py
index 7abfc1d..0d95a47 100644
--- a/putting_dune/graphene.py
+++ b/putting_dune/graphene.py
@@ -667,8 +667,11 @@ class PristineSingleDopedGraphene(Material):
       # by an exponential distribution, with the total rate as the
       # parameter. Scale is the inverse rate.
       transition_seconds = rng.exponential(scale=1.0 / rates.total_rate)
-      # Avoid np.inf when using very small rates. Clip arbitrarily to 1 hour.
-      transition_seconds = min(transition_seconds, 3600)
+      # Avoid np.inf when using very small rates. Clip to a time by which the
+      # exposure has ended, so that clipping never causes a transition.
+      transition_seconds = min(
+          transition_seconds, control.dwell_time.total_seconds() + 1.0
+      )
       transition_time = dt.timedelta(seconds=transition_seconds)
       elapsed_time += transition_time
 
-- 
2.43.0


From c165cddb89e80fc5816ed986fd9a7d67ae98c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 08/54] fix: apply the voltage and current of the control that
 was requested

---
 putting_dune/simulator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/putting_dune/simulator.py b/putting_dune/simulator.py
index 26618ea..d561f16 100644
--- a/putting_dune/simulator.py
+++ b/putting_dune/simulator.py
@@ -138,7 +138,12 @@ class PuttingDuneSimulator:
           control.position
       )
       control = microscope_utils.BeamControlMaterialFrame(
-          microscope_utils.BeamControl(control_position, control.dwell_time)
+          microscope_utils.BeamControl(
+              control_position,
+              control.dwell_time,
+              control.voltage_kv,
+              control.current_na,
+          )
       )
 
       for observer in self._observers:
-- 
2.43.0


From f6f908390404f6929357732d90cb926da85d7ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 09/54] fix: log an episode under the number its steps were
 logged under

---
 putting_dune/microscope_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index 69e07bb..a206654 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -225,8 +225,8 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       observation: microscope_utils.MicroscopeObservation,
   ) -> None:
     if self._episode_step > 0:
-      self._episode += 1
       self._episode_records.append(self._make_episode_record())
+      self._episode += 1
     if self._current_trajectory:
       self._trajectories.append(
           microscope_utils.Trajectory(self._current_trajectory)
-- 
2.43.0


From 25958fd478bdd6c936612222c3f2c8760722756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 10/54] fix: do not log the current episode again on every
 flush

---
 putting_dune/microscope_agent.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index a206654..a58059d 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -188,17 +188,19 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       self.flush()
 
   def flush(self) -> None:
+    # Include the current episode without ending it, since there may be more
+    # steps (and another flush) to come.
+    trajectories = list(self._trajectories)
     if self._current_trajectory:
-      self._trajectories.append(
-          microscope_utils.Trajectory(self._current_trajectory)
-      )
+      trajectories.append(microscope_utils.Trajectory(self._current_trajectory))
+    episode_records = list(self._episode_records)
     if self._episode_step != 0:
-      self._episode_records.append(self._make_episode_record())
+      episode_records.append(self._make_episode_record())
 
     # Write the records
     pdio.write_records(
         self._logdir / 'trajectories.tfrecords',
-        self._trajectories,
+        trajectories,
     )
 
     # Write steps
@@ -216,7 +218,7 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
           fp, fieldnames=typing.get_type_hints(EpisodeRecord).keys()
       )
       writer.writeheader()
-      for record in self._episode_records:
+      for record in episode_records:
         writer.writerow(record)
 
   def reset(
-- 
2.43.0


From 0acb8fc6ad457434d0e8be871e363e7f2be9f5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 11/54] fix: log the goal's own verdict on a step, also when no
 silicon was found

---
 putting_dune/microscope_agent.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index a58059d..bb684bf 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -48,6 +48,8 @@ class MicroscopeAgent:
     self.feature_constructor = adapters_and_goal.feature_constructor
     self.goal = adapters_and_goal.goal
     self._is_first_step = True
+    # The goal's verdict on the last step. None if no silicon was found.
+    self.last_goal_return: goals.GoalReturn | None = None
 
   def reset(
       self,
@@ -69,7 +71,9 @@ class MicroscopeAgent:
     try:
       features = self.feature_constructor.get_features(observation, self.goal)
       goal_return = self.goal.calculate_reward_and_terminal(observation)
+      self.last_goal_return = goal_return
     except graphene.SiliconNotFoundError:
+      self.last_goal_return = None
       # TODO(joshgreaves): This is desirable for now, but we will need to
       # rethink it in the future.
       # If we couldn't find a silicon, rescan.
@@ -245,8 +249,10 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       observation: microscope_utils.MicroscopeObservation,
   ) -> List[microscope_utils.BeamControlMicroscopeFrame]:
     beam_control = self.__wrapped__.step(observation)
-    goal_return = self.__wrapped__.goal.calculate_reward_and_terminal(
-        observation
+    # The goal must only be evaluated once per step, which the agent has done.
+    # When it found no silicon it asks for a rescan, which earns no reward.
+    goal_return = self.__wrapped__.last_goal_return or goals.GoalReturn(
+        reward=0.0, is_terminal=False, is_truncated=False
     )
     self._episode_step += 1
     self._episode_return += goal_return.reward
-- 
2.43.0


From 9d312698645493f6bc825d8cb1db3dd92b6af68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 12/54] fix: build all features from the same silicon atom, or
 report it missing

---
 putting_dune/feature_constructors.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/putting_dune/feature_constructors.py b/putting_dune/feature_constructors.py
index 410f980..0c06db5 100644
--- a/putting_dune/feature_constructors.py
+++ b/putting_dune/feature_constructors.py
@@ -66,7 +66,7 @@ def _get_silicon_goal_delta(
     goal: goals.SingleSiliconGoalReaching,
 ) -> np.ndarray:
   """Gets the delta from the current silicon position to goal in angstroms."""
-  silicon_position = graphene.get_silicon_positions(grid).reshape(2)
+  silicon_position = graphene.get_single_silicon_position(grid).reshape(2)
   silicon_position_material_frame = fov.microscope_frame_to_material_frame(
       silicon_position
   )
@@ -188,7 +188,11 @@ class SingleSiliconMaterialFrameFeatureConstructor(FeatureConstructor):
     goal = typing.cast(goals.SingleSiliconGoalReaching, goal)
     grid = observation.fov.microscope_frame_to_material_frame(observation.grid)
 
-    silicon_position = graphene.get_single_silicon_position(grid)
+    # Select the silicon in the microscope frame, where the center of the FOV,
+    # which decides between several silicon atoms, is known.
+    silicon_position = observation.fov.microscope_frame_to_material_frame(
+        graphene.get_single_silicon_position(observation.grid)
+    )
 
     # Ensure the silicon position shape is correct.
     silicon_position = silicon_position.reshape(2)
-- 
2.43.0


From 0b31ad1e9a58b2268f58f6a3853d1886d1687b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 13/54] fix: render the environment after a step

---
 putting_dune/putting_dune_environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/putting_dune_environment.py b/putting_dune/putting_dune_environment.py
index ccee73b..90864d6 100644
--- a/putting_dune/putting_dune_environment.py
+++ b/putting_dune/putting_dune_environment.py
@@ -170,7 +170,7 @@ class PuttingDuneEnvironment(dm_env.Environment):
     # TODO(joshgreaves): beam_position lags by 1 timestep.
     previous_controls = self.last_microscope_observation.controls
     if previous_controls:
-      beam_position = np.asarray(previous_controls[-1].position.coords)
+      beam_position = np.asarray(previous_controls[-1].position.coords)[0]
     else:
       beam_position = None
 
-- 
2.43.0


From abe16d025cdfc58088ac59b846e0eaf4721fa0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 14/54] fix: carry over when a rounded duration reaches the
 next second

---
 putting_dune/plotting_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/putting_dune/plotting_utils.py b/putting_dune/plotting_utils.py
index 8f9a1a1..989c1a0 100644
--- a/putting_dune/plotting_utils.py
+++ b/putting_dune/plotting_utils.py
@@ -33,10 +33,11 @@ _SimulatorEventType = simulator_observers.SimulatorEventType
 
 
 def format_timedelta(delta: dt.timedelta) -> str:
-  total_seconds = delta.total_seconds()
-  minutes = int(total_seconds) // 60
-  seconds = int(total_seconds) % 60
-  remainder = round((total_seconds - int(total_seconds)) * 100)
+  # Round first, so that rounding up carries over to seconds and minutes.
+  hundredths = round(delta.total_seconds() * 100)
+  minutes = hundredths // 6000
+  seconds = hundredths // 100 % 60
+  remainder = hundredths % 100
   return f'{minutes:02d}:{seconds:02d}:{remainder:02d}'
 
 
-- 
2.43.0


From 34263db8fa4a0ebd90777bb115c3f3ef091f3ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 15/54] fix: generate masks whose width and height differ

---
 putting_dune/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index 12874d2..fbcd991 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -98,7 +98,7 @@ def generate_grid_mask(
   # We need to work with a grid in the material frame to work out distances
   # in angstroms.
   material_grid = fov.microscope_frame_to_material_frame(grid)
-  mask = np.zeros(image_dimensions, dtype=np.uint8)
+  mask = np.zeros((height, width), dtype=np.uint8)
 
   for pos, atomic_number in zip(
       material_grid.atom_positions, material_grid.atomic_numbers
-- 
2.43.0


From 2094b3d9e41f93199b65630c97acae4e6e0b68c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 16/54] fix: render round atoms when the field of view is not
 square

---
 putting_dune/imaging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index fbcd991..8ad65bb 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -158,7 +158,8 @@ def generate_clean_image(
   # For example, at 512 pixels with 20 angstrom FOV => sigma = 12
   # => sigma = 200 / FOV ~= image_size / (2 * FOV)
   # Empirically, this looks about right.
-  sigma = (image_size / (2.15 * fov_width), image_size / (2.15 * fov_height))
+  # The first axis of the image is the vertical one.
+  sigma = (image_size / (2.15 * fov_height), image_size / (2.15 * fov_width))
 
   image = ndimage.gaussian_filter(image, sigma, mode='constant')
 
-- 
2.43.0


From bdba3c139027dcc9ad9c6febb85f5ee62d93fb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 17/54] fix: detect atoms in images that have no carbon or no
 silicon

---
 putting_dune/atom_detector.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 69c9742..81224e0 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -176,10 +176,14 @@ class AtomDetector:
     return microscope_utils.AtomicGridMicroscopeFrame(
         microscope_utils.AtomicGrid(
             atom_positions=np.concatenate(
-                [carbon_centroids, silicon_centroids]
+                # Either of these may be empty.
+                [
+                    np.reshape(carbon_centroids, (-1, 2)),
+                    np.reshape(silicon_centroids, (-1, 2)),
+                ]
             ),
             atomic_numbers=np.concatenate(
                 [carbon_atomic_numbers, silicon_atomic_numbers]
-            ),
+            ).astype(np.int32),
         )
     )
-- 
2.43.0


From 5cc117ac235a09f1c700ccb0901e6645b781d260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 18/54] fix: normalize detected positions by the matching image
 dimension

---
 putting_dune/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 2caa0e0..0cd6daf 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -399,7 +399,7 @@ class ImageAligner:
         c_x, c_y = 0, 0
 
       # Normalize so that 0,0 is bottom left and 1,1 is top right
-      centroids.append((c_x / classes.shape[0], 1.0 - c_y / classes.shape[1]))
+      centroids.append((c_x / classes.shape[1], 1.0 - c_y / classes.shape[0]))
     return centroids
 
   @classmethod
-- 
2.43.0


From f3409c09bfcc9b8707ff583dda43fd4f05774f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 19/54] fix: do not carry an alignment's result over into the
 next alignment

---
 putting_dune/alignment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 0cd6daf..eeea243 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -121,7 +121,8 @@ def align_latest(
   if init_shift is None:
     cumulative_drift = np.zeros(new_coordinates.shape[-1])
   else:
-    cumulative_drift = init_shift
+    # Copied, since it is updated in place below.
+    cumulative_drift = np.array(init_shift, dtype=float)
   noise_scales = np.linspace(noise_scale, 0, num=iterations)
   class_masks = [new_classes == i for i in set(new_classes)]
   reference_class_masks = [reference_classes == i for i in set(new_classes)]
-- 
2.43.0


From d190bece4ee3d07fafb295c7e7f0037a236fd53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 20/54] fix: do not overwrite the first set of coordinates when
 merging

---
 putting_dune/alignment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index eeea243..66d579d 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -802,7 +802,8 @@ def naive_merge(
       mapped to each merged point.
   """
   coordinates = [c for c in coordinates if c.shape[0]]
-  positions = coordinates[0]
+  # Copied, since merged positions are updated in place below.
+  positions = coordinates[0].copy()
   counts = np.ones(coordinates[0].shape[:1])
 
   for m in coordinates[1:]:
-- 
2.43.0


From a80c78ac7eeeeab0e44f2c44e12c7d120eb7ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 21/54] fix: do not overwrite the initial atomic numbers that
 are passed in

---
 putting_dune/alignment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 66d579d..c2ea3f5 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -778,6 +778,8 @@ def propagate_atomic_numbers(
         merged_atom_positions.shape[0], dtype=original_atomic_numbers.dtype
     )
     new_atomic_numbers.fill(default_atomic_number)
+  else:
+    new_atomic_numbers = new_atomic_numbers.copy()
 
   new_atomic_numbers[closest_neighbors] = original_atomic_numbers[
       original_atoms
-- 
2.43.0


From 94e7972b9e8c3fc26fbb949ad3cac27db075007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 22/54] fix: report the per-neighbor rates that the loss was
 computed for

---
 putting_dune/rate_learning/learn_rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 7bd6898..c1d185a 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -148,7 +148,7 @@ def batched_loss_fn(
       next_state_logprobs[jnp.arange(next_state.shape[0]), next_state - 1]
       * did_transition
   )
-  next_state_probs = jax.nn.softmax(predicted_rates[:, -1:], axis=-1)
+  next_state_probs = jax.nn.softmax(predicted_rates[:, :-1], axis=-1)
 
   losses = (
       next_state_loss * class_loss_weight + total_rate_loss * rate_loss_weight
-- 
2.43.0


From b73a38e97342606858bfcaf4b17369a0c1fff6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 23/54] fix: predict rates with a model that was not loaded
 from disk

---
 putting_dune/rate_learning/learn_rates.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index c1d185a..e0b527d 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -959,11 +959,14 @@ class LearnedTransitionRatePredictor:
     )
     context = new_beam_pos
     if self.config.use_voltage:
-      context = np.concatenate([voltage_kv, context], axis=-1)
+      context = np.concatenate([[[voltage_kv]], context], axis=-1)
     if self.config.use_current:
-      context = np.concatenate([current_na, context], axis=-1)
+      context = np.concatenate([[[current_na]], context], axis=-1)
 
-    rates = np.asarray(self.packaged_model(context))[0]
+    # A packaged model that was not loaded from disk is not itself callable.
+    rates = np.asarray(
+        self.packaged_model.__call__(context.astype(np.float32))
+    )[0]
 
     # neighbor_order is an array mapping the canonical order of neighbors
     # (increasing angle from (1, 0)) to the order they were given in.
-- 
2.43.0


From 9f2d45a10feee227760853d7be0456b355a232e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 24/54] fix: package the learned rates, rather than the raw
 network outputs

---
 putting_dune/rate_learning/learn_rates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index e0b527d..ac5bac0 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -900,7 +900,10 @@ class LearnedTransitionRatePredictor:
       rates, _ = self.batch_apply(
           self.params, self.state, context, self.rng, False
       )
-      return jnp.squeeze(rates, axis=0)
+      # As in self.apply_model.
+      total_rate = rates[..., -1:]
+      weights = jax.nn.softmax(rates[..., :-1], axis=-1)
+      return (total_rate * weights).mean(0)
 
     apply_model = functools.partial(apply_model, fixed_context=fixed_context)
     apply_model = jax.jit(apply_model)
-- 
2.43.0


From 841b3fd590bdfd064192b65552db58e27f0ceb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 25/54] fix: do not predict with a model packaged before the
 last training

---
 putting_dune/rate_learning/learn_rates.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index ac5bac0..a06b943 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -772,6 +772,7 @@ class LearnedTransitionRatePredictor:
             train_config=self.config,
         )
     )
+    self._discard_packaged_model()
 
     return train_metrics
 
@@ -821,9 +822,15 @@ class LearnedTransitionRatePredictor:
     )
     self.params = tree_stack([distillation_params])
     self.state = tree_stack([distillation_state])
+    self._discard_packaged_model()
 
     return distill_metrics
 
+  def _discard_packaged_model(self) -> None:
+    """Makes sure that no model packaged from previous parameters is used."""
+    if hasattr(self, 'packaged_model'):
+      del self.packaged_model
+
   def save(
       self,
       save_dir: str,
-- 
2.43.0


From fe14a49f660d759ac2b240e4201404640e38b822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 26/54] fix: initialize the rate networks with a batch of
 inputs, as they are applied to

---
 putting_dune/rate_learning/learn_rates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index a06b943..bb70538 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -677,7 +677,9 @@ class LearnedTransitionRatePredictor:
     all_params = []
     all_states = []
     for key in keys:
-      params, state = self.init_fn(x=jnp.zeros(self.context_dim), rng=key)
+      params, state = self.init_fn(
+          x=jnp.zeros((1, self.context_dim)), rng=key
+      )
       all_params.append(params)
       all_states.append(state)
     self.params = tree_stack(all_params)
-- 
2.43.0


From 04406305ff1c15981c66559c79b7ae74f85a0f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 27/54] fix: index an empty test set with integers when
 bootstrapping

---
 putting_dune/rate_learning/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index f5b457f..0a60267 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -320,7 +320,7 @@ def bootstrap_dataset(data: Mapping[str, np.ndarray], rng: jnp.ndarray):
   )
   train_data = {k: a[indices] for k, a in data.items()}
   test_indices = set(range(original_length)) - set(np.array(indices))
-  test_indices = np.array(list(test_indices))
+  test_indices = np.array(list(test_indices), dtype=int)
   test_data = {k: a[test_indices] for k, a in data.items()}
   return train_data, test_data
 
-- 
2.43.0


From 44586b5ee9005686ada84e1243eec845344787d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 28/54] fix: restore the network state along with the
 parameters of a rate predictor

---
 putting_dune/rate_learning/learn_rates.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index bb70538..ca1f50d 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -853,6 +853,9 @@ class LearnedTransitionRatePredictor:
     path = epath.Path(checkpoint_path)
     with path.open('wb') as f:
       f.write(flax.serialization.to_bytes(self.params))
+    state_path = epath.Path(os.path.join(save_dir, str(step) + '.state.ckpt'))
+    with state_path.open('wb') as f:
+      f.write(flax.serialization.to_bytes(self.state))
 
     self.package_model(fixed_context=fixed_context)
     logging.info('Saving tf saved model to %s', save_dir)
@@ -881,6 +884,11 @@ class LearnedTransitionRatePredictor:
       path = epath.Path(checkpoint_path)
       with path.open('rb') as f:
         self.params = flax.serialization.from_bytes(self.params, f.read())
+      # Checkpoints written by earlier versions hold no network state.
+      state_path = epath.Path(os.path.join(load_dir, str(step) + '.state.ckpt'))
+      if state_path.exists():
+        with state_path.open('rb') as f:
+          self.state = flax.serialization.from_bytes(self.state, f.read())
     self.packaged_model = tf.saved_model.load(load_dir)
 
     if load_config:
-- 
2.43.0


From 7d5b6cc040b12ff7c652c70102f4a80a3c920b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 29/54] fix: find the trajectory files that can be read in a
 source directory

---
 putting_dune/pipeline/align_trajectories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/align_trajectories.py b/putting_dune/pipeline/align_trajectories.py
index 5d681e4..4c215d1 100644
--- a/putting_dune/pipeline/align_trajectories.py
+++ b/putting_dune/pipeline/align_trajectories.py
@@ -94,7 +94,7 @@ def do_alignment(
 def main(args: Args) -> None:
   trajectories = []
   if args.source_path.is_dir():
-    files = list(args.source_path.glob('*.recordio'))
+    files = list(args.source_path.glob('*.tfrecords'))
   else:
     files = [args.source_path]
   for file in files:
-- 
2.43.0


From abc2bc4887f855540f89b529fbcd9b4eef31b5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 30/54] fix: skip transitions whose grids hold too few atoms
 for the neighbor search

---
 putting_dune/pipeline/train_rate_learner.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 081695a..bd2f7e2 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -354,6 +354,9 @@ def transitions_to_datapoints(
       continue
 
     # Get the neighbors of the grid before.
+    if grid_before.atom_positions.shape[0] < 1 + 9:
+      wrong_number_of_neighbors_count += 1
+      continue
     _, neighbor_indices_before = (
         skneighbors.NearestNeighbors(
             n_neighbors=1 + 9,
@@ -392,6 +395,9 @@ def transitions_to_datapoints(
 
     neighbor_positions_before = neighbor_positions_before[:4]
     # Get the neighbors of the grid after.
+    if grid_after.atom_positions.shape[0] < 1 + 3:
+      wrong_number_of_next_step_neighbors_count += 1
+      continue
     _, neighbor_indices_after = (
         skneighbors.NearestNeighbors(
             n_neighbors=1 + 3,
-- 
2.43.0


From 03dc908811499a8af80adafcf31fa22163b7ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 31/54] fix: order the synthetic prior rates like the neighbors
 they belong to

---
 putting_dune/rate_learning/data_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index 0a60267..f0bc1a3 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -249,8 +249,11 @@ def generate_synthetic_data(
         constants.SIGR_PRIOR_RATE_COV * 1.5,
     )
     context = jax.random.normal(context_key, shape=(context_dim,))
+    # To get the rate towards neighbor n, at an angle of 2 * n * pi / num_states,
+    # rotate it onto the first one, i.e., rotate by -n (or num_states - n) steps.
+    rotations = get_all_position_rotations(position, num_states=num_states)
     rates = graphene.single_silicon_prior_rates(  # pytype: disable=wrong-arg-types  # jnp-type
-        get_all_position_rotations(position, num_states=num_states),
+        rotate_attributes(rotations[::-1], 1),
         mean=constants.SIGR_PRIOR_RATE_MEAN,
         cov=constants.SIGR_PRIOR_RATE_COV,
         max_rate=constants.SIGR_PRIOR_MAX_RATE,
-- 
2.43.0


From 2e0832210887b77c944ec20e552a070384780cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:53 +0000
Subject: [PATCH 32/54] fix: classify lattice atoms by the sorted angles the
 classifier was trained on

---
 putting_dune/alignment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index c2ea3f5..d7e1bc4 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -889,6 +889,8 @@ def classify_lattice_types(
   angles = np.stack(
       [geometry.get_angles(x) for x in relative_neighbor_positions]
   )
+  # Sorted, like the angles that the classifier was trained on.
+  angles = np.sort(angles, axis=-1)
   classes = clusters.predict(angles)
   classes = propagate_graphene_classes(classes, grid)
 
-- 
2.43.0


From 63eefbf9487c1497b2355aeb28bc575217e2a575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 33/54] fix: report no atom for detected blobs without an area

---
 putting_dune/alignment.py     | 11 ++++++-----
 putting_dune/atom_detector.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index d7e1bc4..ad6ec65 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -393,11 +393,12 @@ class ImageAligner:
       # calculate moments for each contour
       m = cv2.moments(contour)
 
-      if m['m00'] != 0:
-        c_x = int(m['m10'] / m['m00'])
-        c_y = int(m['m01'] / m['m00'])
-      else:
-        c_x, c_y = 0, 0
+      # Blobs without an area have no centroid.
+      if m['m00'] == 0:
+        continue
+
+      c_x = int(m['m10'] / m['m00'])
+      c_y = int(m['m01'] / m['m00'])
 
       # Normalize so that 0,0 is bottom left and 1,1 is top right
       centroids.append((c_x / classes.shape[1], 1.0 - c_y / classes.shape[0]))
diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 81224e0..33ce079 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -67,11 +67,12 @@ def compute_centroids(
     # calculate moments for each contour
     m = cv2.moments(contour)
 
-    if m["m00"] != 0:
-      c_x = int(m["m10"] / m["m00"])
-      c_y = int(m["m01"] / m["m00"])
-    else:
-      c_x, c_y = 0, 0
+    # Blobs without an area have no centroid.
+    if m["m00"] == 0:
+      continue
+
+    c_x = int(m["m10"] / m["m00"])
+    c_y = int(m["m01"] / m["m00"])
 
     # Normalize centroid values so that 0,0 is bottom left and 1,1 is top right
     centroids.append((c_x / 256, 1.0 - c_y / 256))
-- 
2.43.0


From f71a9b1828dde349b59d0f3bdbe3c4c2d6038626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 34/54] fix: equalize images of any range

---
 putting_dune/alignment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index ad6ec65..0a8d9ce 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -524,6 +524,8 @@ class ImageAligner:
     image = image.astype(np.float32)
 
     if self.adaptive_normalization:
+      # Equalization only accepts floating point images within [-1, 1].
+      image = exposure.rescale_intensity(image, out_range=(0.0, 1.0))
       image = exposure.equalize_adapthist(image)
 
     image: tf.Tensor = tf.image.resize(
-- 
2.43.0


From 776e8ce572c6fb28a0402edc018cdba02c578cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 35/54] fix: plot transitions of the rate learner

---
 putting_dune/pipeline/train_rate_learner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index bd2f7e2..039d3b4 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -263,8 +263,8 @@ def plot_transition(
     position = neighbor_positions[neighbor_order[i] + 1]
     position = fov_before.material_frame_to_microscope_frame(position)
     plt.scatter(
-        imsize[0] * position[0],
-        imsize[1] - imsize[1] * position[1],
+        imsize * position[0],
+        imsize - imsize * position[1],
         marker='x' if i + 1 == next_state else '+',
         label='Neighbor {}'.format(i + 1),
     )
-- 
2.43.0


From 9b561afd0c4d4bfa2a88d8ef044124dbe754a827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 36/54] fix: pass the learning rate to the scikit-learn MLP

---
 putting_dune/pipeline/train_rate_learner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 039d3b4..3994d0a 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -131,7 +131,7 @@ def get_sklearn_classifier(
     model = sknn.MLPClassifier(
         alpha=config.weight_decay,
         max_iter=config.epochs,
-        learning_rate=config.learning_rate,
+        learning_rate_init=config.learning_rate,
         **kwargs,
     )
   elif learner_type == LearnerType.KNN:
-- 
2.43.0


From 58d6e7294b9a5fc64f0a4095eefc7ea011c1537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 37/54] fix: let support vector machines predict probabilities

---
 putting_dune/pipeline/train_rate_learner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 3994d0a..5e348cf 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -145,7 +145,8 @@ def get_sklearn_classifier(
         max_depth=5, n_estimators=10, **kwargs
     )
   elif learner_type == LearnerType.SVM:
-    model = sksvm.SVC(gamma=2, C=1, **kwargs)
+    # Probabilities are needed to combine the models into an ensemble.
+    model = sksvm.SVC(gamma=2, C=1, probability=True, **kwargs)
   else:
     raise ValueError('Invalid learner type specified.')
 
-- 
2.43.0


From 2bd3b0eff292d326ae40a8370bf6b27d78813756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 38/54] fix: make room for dwell times in the context of rate
 predictors

---
 putting_dune/pipeline/train_rate_learner.py | 5 ++++-
 putting_dune/rate_learning/learn_rates.py   | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 5e348cf..c445bdf 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -709,7 +709,10 @@ def main(args: Args) -> None:
       ),
   )
 
-  frozen_config = config_dict.FrozenConfigDict(dataclasses.asdict(args))
+  frozen_config = config_dict.FrozenConfigDict({
+      **dataclasses.asdict(args),
+      'dwell_time_in_context': args.learner_type != LearnerType.RATE_NETWORK,
+  })
 
   if (
       args.learner_type == LearnerType.RATE_NETWORK
diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index ca1f50d..9e7fd98 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -672,7 +672,12 @@ class LearnedTransitionRatePredictor:
         batchnorm=config.batchnorm,
         dropout_rate=config.dropout_rate,
     )
-    self.context_dim = position_dim + config.use_current + config.use_voltage
+    self.context_dim = (
+        position_dim
+        + config.use_current
+        + config.use_voltage
+        + config.get('dwell_time_in_context', False)
+    )
     self.rng, *keys = jax.random.split(init_key, self.num_models + 1)
     all_params = []
     all_states = []
-- 
2.43.0


From 46fe90997a80e8698fd381867401c7cc7962e4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 39/54] fix: learn rates from the beam position alone

---
 putting_dune/pipeline/train_rate_learner.py | 10 ++++--
 putting_dune/rate_learning/learn_rates.py   | 34 ++++++++++-----------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index c445bdf..122e3e5 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -726,7 +726,11 @@ def main(args: Args) -> None:
     )
 
     training_metrics = rate_predictor.train(
-        {k: jnp.asarray(v) for k, v in stacked_data.items()},
+        {
+            k: jnp.asarray(v)
+            for k, v in stacked_data.items()
+            if v is not None
+        },
         rate_predictor_keys[1],
         bootstrap=args.bootstrap,
     )
@@ -765,7 +769,9 @@ def main(args: Args) -> None:
 
       rate_predictor.distill(augmented_data, config=distillation_defaults)
 
-    avg_context = np.median(stacked_data['context'], axis=0)
+    avg_context = stacked_data['context']
+    if avg_context is not None:
+      avg_context = np.median(avg_context, axis=0)
     rate_predictor.save(args.workdir.as_posix(), fixed_context=avg_context)
     rate_prediction_function = rate_predictor.apply_model
 
diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 9e7fd98..4ac9523 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -550,6 +550,9 @@ def create_dataset_splits(
     Training datasets and testing datasets, stacked along axis 0.
   """
 
+  # There may be no context.
+  train_data = {k: a for k, a in train_data.items() if a is not None}
+
   data_keys = jax.random.split(key, num_splits)
   if bootstrap:
     datasets = [
@@ -575,9 +578,9 @@ def create_dataset_splits(
     ]
     test_datasets = [data_utils.augment_data(**data) for data in test_datasets]
 
-  test_set_len = min([a['context'].shape[0] for a in test_datasets])
+  test_set_len = min([d['next_state'].shape[0] for d in test_datasets])
   test_datasets = [
-      {k: a[:test_set_len] for k, a in d.items()} for d in test_datasets
+      {k: d[k][:test_set_len] for k in train_data.keys()} for d in test_datasets
   ]
 
   train_datasets = {
@@ -587,15 +590,12 @@ def create_dataset_splits(
       k: jnp.stack([d[k] for d in test_datasets]) for k in train_data.keys()
   }
 
-  if 'position' in train_datasets and 'context' in train_datasets:
-    train_datasets['context'] = jnp.concatenate(
-        [train_datasets['context'], train_datasets['position']], -1
-    )
-    test_datasets['context'] = jnp.concatenate(
-        [test_datasets['context'], test_datasets['position']], -1
-    )
-    del train_datasets['position']
-    del test_datasets['position']
+  if 'position' in train_datasets:
+    for datasets in (train_datasets, test_datasets):
+      position = datasets.pop('position')
+      if 'context' in datasets:
+        position = jnp.concatenate([datasets['context'], position], -1)
+      datasets['context'] = position
 
   return train_datasets, test_datasets
 
@@ -804,13 +804,11 @@ class LearnedTransitionRatePredictor:
         self.config.learning_rate, weight_decay=self.config.weight_decay
     )
 
-    data_mean = np.concatenate(
-        [train_data['context'].mean(0), train_data['position'].mean(0)], 0
-    )
-
-    data_scale = np.concatenate(
-        [train_data['context'].std(0), train_data['position'].std(0)], 0
-    )
+    inputs = [train_data['position']]
+    if train_data.get('context') is not None:
+      inputs.insert(0, train_data['context'])
+    data_mean = np.concatenate([x.mean(0) for x in inputs], 0)
+    data_scale = np.concatenate([x.std(0) for x in inputs], 0)
 
     distillation_params, distillation_state, self.rng, distill_metrics = (
         distill_multiple_models_to_single(
-- 
2.43.0


From 01f0d5c5b8a38e1fc5c722e6784632acde2ecb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 40/54] fix: visualize rates with any number of points

---
 putting_dune/rate_learning/learn_rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 4ac9523..75e946b 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -1029,7 +1029,7 @@ def visualize_rates(
   coords = np.stack([xs, ys], -1)
   context = coords.reshape(-1, *coords.shape[2:])
   if fixed_context is not None:
-    fixed_context = np.repeat(fixed_context[None], num_points, 0)
+    fixed_context = np.repeat(fixed_context[None], context.shape[0], 0)
     context = np.concatenate([fixed_context, context], axis=-1)
 
   pred_rates = predict_rates(context)
-- 
2.43.0


From f769c51937c968c42754a002d5b199bbb5a5b7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 41/54] fix: find the peak of transition functions within array
 limits

---
 putting_dune/agents/agent_lib.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/putting_dune/agents/agent_lib.py b/putting_dune/agents/agent_lib.py
index 398ae09..2d8956c 100644
--- a/putting_dune/agents/agent_lib.py
+++ b/putting_dune/agents/agent_lib.py
@@ -149,10 +149,13 @@ class GreedyAgent(Agent):
       The approximate argmax of the transition function with respect to
       transitioning to neighbor 0.
     """
-    num_points = int((self._high - self._low) // resolution)
-    points_1d = np.linspace(self._low, self._high, num_points, dtype=np.float32)
-    points_x = np.tile(points_1d[None], (num_points, 1))
-    points_y = np.tile(points_1d[:, None], (1, num_points))
+    # The limits may differ between the two directions.
+    low = np.broadcast_to(self._low, (2,))
+    high = np.broadcast_to(self._high, (2,))
+    points_x, points_y = np.meshgrid(*[
+        np.linspace(a, b, int((b - a) // resolution), dtype=np.float32)
+        for a, b in zip(low, high)
+    ])
     points = np.stack([points_x, points_y], axis=-1)
     points = np.reshape(points, (-1, points.shape[-1]))
     transition_probabilities = np.stack(
-- 
2.43.0


From 65ff81be665725a14d5e38f2ffd45f0469bddb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 42/54] fix: compare predicted classes with the labelled ones
 pixel by pixel

---
 putting_dune/image_alignment/train.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/putting_dune/image_alignment/train.py b/putting_dune/image_alignment/train.py
index f06924b..97af199 100644
--- a/putting_dune/image_alignment/train.py
+++ b/putting_dune/image_alignment/train.py
@@ -124,7 +124,9 @@ def train_step(
     drift_losses = jnp.square(batch['drift'] - pred_drift).sum(-1)
     drift_loss = jnp.mean(drift_losses)
     final_drift_loss = jnp.mean(drift_losses[..., -1])
-    accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(batch['mask'])
+    accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(
+        batch['mask'], axis=-1
+    )
     accuracy = jnp.mean(accuracies)
     final_accuracy = jnp.mean(accuracies[..., -1])
     drift_errors = jnp.linalg.norm(batch['drift'] - pred_drift, axis=-1)
@@ -177,7 +179,9 @@ def eval_step(
   drift_loss = jnp.mean(drift_losses)
   final_drift_loss = jnp.mean(drift_losses[..., -1])
 
-  accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(batch['mask'])
+  accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(
+      batch['mask'], axis=-1
+  )
   accuracy = jnp.mean(accuracies)
   final_accuracy = jnp.mean(accuracies[..., -1])
   drift_errors = jnp.linalg.norm(batch['drift'] - pred_drift, axis=-1)
-- 
2.43.0


From 3fc5c62f0d2b48984edfb86bc67f08dd76736b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 43/54] fix: train detectors and graph networks with the batch
 size asked for

---
 putting_dune/atom_detection/train.py  | 1 +
 putting_dune/graph_alignment/train.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/putting_dune/atom_detection/train.py b/putting_dune/atom_detection/train.py
index d6c584e..0fa5b01 100644
--- a/putting_dune/atom_detection/train.py
+++ b/putting_dune/atom_detection/train.py
@@ -193,6 +193,7 @@ def train(config: Config) -> TrainState:
 
   dataset_config = atom_detection_dataset.AtomDetectionDatasetConfig(
       data_dir=config.data_dir.as_posix(),
+      batch_size=config.batch_size,
   )
 
   train_ds, test_ds = atom_detection_dataset.make_dataset(
diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index 05bf998..bb3b893 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -284,6 +284,7 @@ def train(config: Config) -> TrainState:
 
   dataset_config = graph_alignment_dataset.GraphAlignmentDatasetConfig(
       data_dir=config.data_dir.as_posix(),
+      batch_size=config.batch_size,
   )
 
   train_ds, test_ds = graph_alignment_dataset.make_dataset(
-- 
2.43.0


From 3864b33dfc4ceec3166e42b3ce4a48dc6cfba386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 44/54] fix: resume training after the last epoch that was
 saved

---
 putting_dune/atom_detection/train.py  | 7 +++++--
 putting_dune/graph_alignment/train.py | 7 +++++--
 putting_dune/image_alignment/train.py | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/putting_dune/atom_detection/train.py b/putting_dune/atom_detection/train.py
index 0fa5b01..33eddd3 100644
--- a/putting_dune/atom_detection/train.py
+++ b/putting_dune/atom_detection/train.py
@@ -210,7 +210,8 @@ def train(config: Config) -> TrainState:
   )
   hooks = [progress]
 
-  if latest_step := chkpt_manager.latest_step():
+  latest_step = chkpt_manager.latest_step()
+  if latest_step is not None:
     with progress.timed('restore-checkpoint'):
       restored = chkpt_manager.restore(latest_step, items=state)
       state = jax.tree_util.tree_map(
@@ -218,10 +219,12 @@ def train(config: Config) -> TrainState:
           state,
           restored,
       )
+  # The state that is saved for an epoch is the one at its end.
+  first_epoch = 0 if latest_step is None else latest_step + 1
 
   with metric_writers.ensure_flushes(writer):
     for epoch in etqdm.tqdm(
-        range(chkpt_manager.latest_step() or 0, config.epochs),
+        range(first_epoch, config.epochs),
         desc='Epoch',
     ):
       state = functools.reduce(
diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index bb3b893..f6f8d01 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -363,7 +363,8 @@ def train(config: Config) -> TrainState:
   )
   hooks = [progress]
 
-  if latest_step := chkpt_manager.latest_step():
+  latest_step = chkpt_manager.latest_step()
+  if latest_step is not None:
     with progress.timed('restore-checkpoint'):
       restored = chkpt_manager.restore(latest_step, items=state)
       restored = sanitize_state_keys(
@@ -374,6 +375,8 @@ def train(config: Config) -> TrainState:
           state,
           restored,
       )
+  # The state that is saved for an epoch is the one at its end.
+  first_epoch = 0 if latest_step is None else latest_step + 1
 
   global train_step
   train_step = functools.partial(
@@ -387,7 +390,7 @@ def train(config: Config) -> TrainState:
 
   with metric_writers.ensure_flushes(writer):
     for epoch in etqdm.tqdm(
-        range(chkpt_manager.latest_step() or 0, config.epochs),
+        range(first_epoch, config.epochs),
         desc='Epoch',
     ):
       state = functools.reduce(
diff --git a/putting_dune/image_alignment/train.py b/putting_dune/image_alignment/train.py
index 97af199..1947877 100644
--- a/putting_dune/image_alignment/train.py
+++ b/putting_dune/image_alignment/train.py
@@ -347,7 +347,8 @@ def train(config: Config) -> TrainState:
       state_sharding,
   ) = make_batch_sharding(train_ds.element_spec, state)
 
-  if latest_step := chkpt_manager.latest_step():
+  latest_step = chkpt_manager.latest_step()
+  if latest_step is not None:
     with progress.timed('restore-checkpoint'):
       restore_args = jax.tree_util.tree_map(
           lambda sharding: checkpoint.ArrayRestoreArgs(  # pylint: disable=g-long-lambda
@@ -360,6 +361,8 @@ def train(config: Config) -> TrainState:
           items=state,
           restore_kwargs={'restore_args': restore_args},
       )
+  # The state that is saved for an epoch is the one at its end.
+  first_epoch = 0 if latest_step is None else latest_step + 1
 
   concretized_train_step = functools.partial(
       train_step,
@@ -396,7 +399,7 @@ def train(config: Config) -> TrainState:
   with jax.spmd_mode('allow_all'):
     with metric_writers.ensure_flushes(writer):
       for epoch in etqdm.tqdm(
-          range(chkpt_manager.latest_step() or 0, config.epochs),
+          range(first_epoch, config.epochs),
           desc='Epoch',
       ):
         state = functools.reduce(
-- 
2.43.0


From a83d5e8b45c410ad6e4d61697a99ef7a412b484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 45/54] fix: restore graph networks under the keys they are
 saved with

---
 putting_dune/graph_alignment/train.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index f6f8d01..81d6f9d 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -366,7 +366,9 @@ def train(config: Config) -> TrainState:
   latest_step = chkpt_manager.latest_step()
   if latest_step is not None:
     with progress.timed('restore-checkpoint'):
-      restored = chkpt_manager.restore(latest_step, items=state)
+      restored = chkpt_manager.restore(
+          latest_step, items=sanitize_state_keys(state)
+      )
       restored = sanitize_state_keys(
           restored, (('dummy_slash', '/'), ('dummy_tilde', '~'))
       )
-- 
2.43.0


From 353a36eba031c86a1a5eb0b0f817e585427fc59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 46/54] fix: keep the graph network with the lowest loss as the
 best

---
 putting_dune/graph_alignment/train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index 81d6f9d..08316e2 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -276,7 +276,7 @@ def train(config: Config) -> TrainState:
       config.workdir,
       checkpointers=checkpoint.PyTreeCheckpointer(),
       options=checkpoint.CheckpointManagerOptions(
-          best_fn=lambda metrics: metrics['eval/total_loss'],
+          best_fn=lambda metrics: -metrics['eval/total_loss'],
           create=True,
       ),
       metadata=config.to_dict(),
-- 
2.43.0


From 9fb0d60328e719f0689d90551c9011b3b39b449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 47/54] fix: stay in the working directory while saving image
 aligners

---
 putting_dune/image_alignment/save_model.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/putting_dune/image_alignment/save_model.py b/putting_dune/image_alignment/save_model.py
index 1d43531..968b286 100644
--- a/putting_dune/image_alignment/save_model.py
+++ b/putting_dune/image_alignment/save_model.py
@@ -136,17 +136,20 @@ def save(config: Config):
   logging.info('Will save model at: %s', copy_target)
 
   with tempfile.TemporaryDirectory() as tmpdir:
-    os.chdir(tmpdir)
     save_path = epath.Path(tmpdir) / 'image-alignment-model'
-    zip_path = epath.Path('image-alignment-model.zip')
+    zip_path = epath.Path(tmpdir) / 'image-alignment-model.zip'
     tf.saved_model.save(tf_module, save_path)
 
     zipped = zipfile.ZipFile(zip_path, 'w')
     for dirname, _, files in os.walk(save_path):
-      dirname = dirname.replace(tmpdir + '/', '')
-      zipped.write(dirname)
+      # Within the archive, everything is in a directory named like the model.
+      archive_dirname = os.path.relpath(dirname, tmpdir)
+      zipped.write(dirname, archive_dirname)
       for filename in files:
-        zipped.write(os.path.join(dirname, filename))
+        zipped.write(
+            os.path.join(dirname, filename),
+            os.path.join(archive_dirname, filename),
+        )
     zipped.close()
     zip_path.copy(dst=copy_target, overwrite=config.overwrite)
 
-- 
2.43.0


From ba94ca1f73a7797285ce4ba49aa7d298e0444298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 48/54] fix: save atom detectors the way they are loaded

---
 putting_dune/atom_detection/save_model.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/putting_dune/atom_detection/save_model.py b/putting_dune/atom_detection/save_model.py
index e815f51..6fb0077 100644
--- a/putting_dune/atom_detection/save_model.py
+++ b/putting_dune/atom_detection/save_model.py
@@ -94,8 +94,11 @@ def save(config: Config):
       predictor_tf,
       autograph=False,
       input_signature=[
+          # AtomDetector passes its input by this name.
           tf.TensorSpec(
-              shape=config.input_shape, dtype=np.float32, name='image'
+              shape=config.input_shape,
+              dtype=np.float32,
+              name='preprocessed_inputs_0',
           )
       ],
   )
@@ -113,15 +116,20 @@ def save(config: Config):
   logging.info('Will save model at: %s', copy_target)
 
   with tempfile.TemporaryDirectory() as tmpdir:
-    save_path = epath.Path(tmpdir) / 'packaged'
-    zip_path = epath.Path(tmpdir) / 'packaged.zip'
+    save_path = epath.Path(tmpdir) / 'atom-detection-model'
+    zip_path = epath.Path(tmpdir) / 'atom-detection-model.zip'
     tf.saved_model.save(tf_module, save_path)
 
     zipped = zipfile.ZipFile(zip_path, 'w')
     for dirname, _, files in os.walk(save_path):
-      zipped.write(dirname)
+      # Within the archive, everything is in a directory named like the model.
+      archive_dirname = os.path.relpath(dirname, tmpdir)
+      zipped.write(dirname, archive_dirname)
       for filename in files:
-        zipped.write(os.path.join(dirname, filename))
+        zipped.write(
+            os.path.join(dirname, filename),
+            os.path.join(archive_dirname, filename),
+        )
     zipped.close()
     zip_path.copy(dst=copy_target, overwrite=config.overwrite)
 
-- 
2.43.0


From a127acff677f56600089ae08ff8f26bc97946cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 49/54] fix: only load models that were unpacked completely

---
 putting_dune/alignment.py     | 10 ++++++++--
 putting_dune/atom_detector.py |  8 ++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 0a8d9ce..4525ee1 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -17,6 +17,7 @@
 import collections
 import copy
 import functools
+import tempfile
 import typing
 from typing import Any, Deque, Optional, Sequence, Tuple
 import zipfile
@@ -483,10 +484,15 @@ class ImageAligner:
       workdir = epath.resource_path('putting_dune')
     model_path = epath.Path(workdir) / 'model_weights' / 'image-alignment-model'
     if not model_path.exists() or reload:
-      model_path.mkdir(parents=True, exist_ok=True)
+      model_path.parent.mkdir(parents=True, exist_ok=True)
       with path.open('rb') as model_zip_fp:
         with zipfile.ZipFile(model_zip_fp) as model_zip:
-          model_zip.extractall(model_path.parent)
+          # The model is only put in its place when it is complete.
+          with tempfile.TemporaryDirectory(dir=model_path.parent) as tmpdir:
+            model_zip.extractall(tmpdir)
+            if model_path.exists():
+              model_path.rename(epath.Path(tmpdir) / 'replaced')
+            (epath.Path(tmpdir) / model_path.name).rename(model_path)
 
     return ImageAligner(model_path=model_path, **kwargs)
 
diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 33ce079..e4f355c 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -16,6 +16,7 @@
 import dataclasses
 import functools
 import io
+import tempfile
 from typing import Any, List, Tuple
 import urllib
 import zipfile
@@ -109,10 +110,13 @@ class AtomDetector:
     )
 
     if not model_path.exists():
-      model_path.mkdir(parents=True)
+      model_path.parent.mkdir(parents=True, exist_ok=True)
       with urllib.request.urlopen(url) as request:
         with zipfile.ZipFile(io.BytesIO(request.read())) as model_zip:
-          model_zip.extractall(model_path.parent)
+          # The model is only put in its place when it is complete.
+          with tempfile.TemporaryDirectory(dir=model_path.parent) as tmpdir:
+            model_zip.extractall(tmpdir)
+            (epath.Path(tmpdir) / model_path.name).rename(model_path)
 
     return AtomDetector(model_path=model_path)
     # pylint: enable=unreachable
-- 
2.43.0


From 0dc263a2e4fe56ad46f0747ad083c7f399290b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 50/54] fix: upload beam positions in the microscope frame

---
 putting_dune/pipeline/upload_microscope_data.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index e6eccd6..cc074b2 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -170,11 +170,14 @@ def convert_dataset_to_proto(
       beam_loc = geometry.PointMicroscopeFrame(
           geometry.Point(beam_loc[0], beam_loc[1])
       )
-      beam_loc = fov.microscope_frame_to_material_frame(beam_loc)
       beam_control = (
-          microscope_utils.BeamControl(
-              beam_loc,
-              dt.timedelta(seconds=float(parameters[str(t)]['beam dwelltime'])),
+          microscope_utils.BeamControlMicroscopeFrame(
+              microscope_utils.BeamControl(
+                  beam_loc,
+                  dt.timedelta(
+                      seconds=float(parameters[str(t)]['beam dwelltime'])
+                  ),
+              )
           ),
       )
       elapsed_time = dt.timedelta(
-- 
2.43.0


From 49cf0fea537be32b08aaff5969ce2e4f62eebe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 51/54] fix: keep the names of datasets with dots apart when
 uploading

---
 putting_dune/pipeline/upload_microscope_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index cc074b2..73e27d7 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -215,7 +215,7 @@ def main(args: Args) -> None:
 
   for dataset_path in (pbar := tqdm.tqdm(paths)):
     # Create a filename by converting each part of the path to be
-    # "underscored" and then split path parts with a dash.
+    # "underscored" and then split path parts with a dash. Names may have dots.
     filename = pathlib.Path(
         '-'.join(
             map(
@@ -223,7 +223,8 @@ def main(args: Args) -> None:
                 dataset_path.relative_to(args.directory).parts,
             )
         )
-    ).with_suffix('.riegeli')
+        + '.riegeli'
+    )
     pbar.set_postfix_str(filename)
 
     # Load dataset
-- 
2.43.0


From 82d36edc2cd8ae841da3797791240e74ebad1642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 52/54] fix: only load agents that were unpacked completely

---
 putting_dune/experiments/registry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/putting_dune/experiments/registry.py b/putting_dune/experiments/registry.py
index 9f7df26..439ab6a 100644
--- a/putting_dune/experiments/registry.py
+++ b/putting_dune/experiments/registry.py
@@ -17,6 +17,7 @@
 import dataclasses
 import datetime as dt
 import functools
+import tempfile
 from typing import Callable, Optional, Tuple
 import urllib.request
 import zipfile
@@ -102,7 +103,10 @@ class _TfAgentCreator:
 
       logging.info('Unzipping agent checkpoint...')
       with zipfile.ZipFile(zip_path_str, mode='r') as zf:
-        zf.extractall(model_weights_path)
+        # The agent is only put in its place when it is complete.
+        with tempfile.TemporaryDirectory(dir=model_weights_path) as tmpdir:
+          zf.extractall(tmpdir)
+          (epath.Path(tmpdir) / self.model_name).rename(model_path)
 
       # Delete the zip file.
       zip_path.unlink()
-- 
2.43.0


From 5144632778cb8f9746d13947478301c05bc37fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:28 +0000
Subject: [PATCH 53/54] fix: close the figure from which the environment
 renders a picture

---
 putting_dune/putting_dune_environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/putting_dune_environment.py b/putting_dune/putting_dune_environment.py
index 90864d6..d54b06a 100644
--- a/putting_dune/putting_dune_environment.py
+++ b/putting_dune/putting_dune_environment.py
@@ -192,4 +192,5 @@ class PuttingDuneEnvironment(dm_env.Environment):
     fig.canvas.draw()
     img = np.frombuffer(fig.canvas.tostring_rgb(), dtype=np.uint8)
     img = img.reshape(fig.canvas.get_width_height()[::-1] + (3,))
+    plt.close(fig)
     return img
-- 
2.43.0


From 0e38df2d46232f578204d64d3c10e1a8cee61cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 54/54] fix: let processes load the same model at the same time

---
 putting_dune/alignment.py            |  9 +++++++--
 putting_dune/atom_detector.py        |  7 ++++++-
 putting_dune/experiments/registry.py | 30 +++++++++++++++-------------
 3 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 4525ee1..881cc79 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -490,9 +490,14 @@ class ImageAligner:
           # The model is only put in its place when it is complete.
           with tempfile.TemporaryDirectory(dir=model_path.parent) as tmpdir:
             model_zip.extractall(tmpdir)
-            if model_path.exists():
+            if reload and model_path.exists():
               model_path.rename(epath.Path(tmpdir) / 'replaced')
-            (epath.Path(tmpdir) / model_path.name).rename(model_path)
+            try:
+              (epath.Path(tmpdir) / model_path.name).rename(model_path)
+            except OSError:
+              # Another process may have been faster.
+              if not model_path.exists():
+                raise
 
     return ImageAligner(model_path=model_path, **kwargs)
 
diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index e4f355c..e89cede 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -116,7 +116,12 @@ class AtomDetector:
           # The model is only put in its place when it is complete.
           with tempfile.TemporaryDirectory(dir=model_path.parent) as tmpdir:
             model_zip.extractall(tmpdir)
-            (epath.Path(tmpdir) / model_path.name).rename(model_path)
+            try:
+              (epath.Path(tmpdir) / model_path.name).rename(model_path)
+            except OSError:
+              # Another process may have been faster.
+              if not model_path.exists():
+                raise
 
     return AtomDetector(model_path=model_path)
     # pylint: enable=unreachable
diff --git a/putting_dune/experiments/registry.py b/putting_dune/experiments/registry.py
index 439ab6a..38385a4 100644
--- a/putting_dune/experiments/registry.py
+++ b/putting_dune/experiments/registry.py
@@ -94,22 +94,24 @@ class _TfAgentCreator:
     # Download the file if necessary.
     if not model_path.exists():
       logging.info("Couldn't find agent checkpointing. Downloading...")
-      zip_path = model_weights_path / 'tmp.zip'
-      zip_path_str = str(zip_path)
-      urllib.request.urlretrieve(
-          self.download_url,
-          zip_path_str,
-      )
-
-      logging.info('Unzipping agent checkpoint...')
-      with zipfile.ZipFile(zip_path_str, mode='r') as zf:
-        # The agent is only put in its place when it is complete.
-        with tempfile.TemporaryDirectory(dir=model_weights_path) as tmpdir:
+      with tempfile.TemporaryDirectory(dir=model_weights_path) as tmpdir:
+        zip_path_str = str(epath.Path(tmpdir) / 'tmp.zip')
+        urllib.request.urlretrieve(
+            self.download_url,
+            zip_path_str,
+        )
+
+        logging.info('Unzipping agent checkpoint...')
+        with zipfile.ZipFile(zip_path_str, mode='r') as zf:
           zf.extractall(tmpdir)
-          (epath.Path(tmpdir) / self.model_name).rename(model_path)
 
-      # Delete the zip file.
-      zip_path.unlink()
+        # The agent is only put in its place when it is complete.
+        try:
+          (epath.Path(tmpdir) / self.model_name).rename(model_path)
+        except OSError:
+          # Another process may have been faster.
+          if not model_path.exists():
+            raise
 
     agent = tf_eval_agent.TfEvalAgent(str(model_path))
     logging.info('Agent loaded!')
-- 
2.43.0

