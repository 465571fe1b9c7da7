From 8ef99c644d06e556ce7e1431698bc8d24a054cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 01/55] fix: store a transition's label images whenever they
 are present

---
 putting_dune/microscope_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index 0930f2f..f20ac76 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -701,12 +701,12 @@ class Transition(ProtoModel[putting_dune_pb2.Transition]):
 
     label_image_before = (
         tf.make_tensor_proto(self.label_image_before)
-        if self.image_before is not None
+        if self.label_image_before is not None
         else None
     )
     label_image_after = (
         tf.make_tensor_proto(self.label_image_after)
-        if self.image_after is not None
+        if self.label_image_after is not None
         else None
     )
 
-- 
2.43.0


From 837c9f7db37d4f7948564e89ad2be3fe2be4b751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 02/55] fix: keep fractional drift when reading a Drift proto

---
 putting_dune/microscope_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index f20ac76..d4d4070 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -812,7 +812,7 @@ class Drift(ProtoModel[putting_dune_pb2.Drift]):
     num_atoms = len(proto_drift.jitter)
 
     jitter = np.empty((num_atoms, 2), dtype=np.float32)
-    drift = np.empty(2, dtype=np.int32)
+    drift = np.empty(2, dtype=np.float32)
 
     for i, atom in enumerate(proto_drift.jitter):
       jitter[i, 0] = atom.x
-- 
2.43.0


From 2aed27127934fc32802d6798c50b7182dfb94a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 03/55] fix: rotate the prior's preferred beam offset towards
 each neighbour

---
 putting_dune/graphene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/graphene.py b/putting_dune/graphene.py
index 746c636..1d90afc 100644
--- a/putting_dune/graphene.py
+++ b/putting_dune/graphene.py
@@ -220,7 +220,7 @@ class HumanPriorRatePredictor:
     relative_beam_position /= constants.CARBON_BOND_DISTANCE_ANGSTROMS
     rates = np.zeros((neighbor_indices.shape), dtype=float)
     for i, angle in enumerate(angles):
-      rotated_mean = geometry.rotate_coordinates(self.mean, -angle)
+      rotated_mean = geometry.rotate_coordinates(self.mean, angle)
       rate = single_silicon_prior_rates(
           relative_beam_position, rotated_mean, self.cov, self.max_rate
       )
-- 
2.43.0


From 942199759075e399f2265eaad8f9672d3de23a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 04/55] fix: build features around the dopant nearest the
 centre of the field of view

---
 putting_dune/feature_constructors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/putting_dune/feature_constructors.py b/putting_dune/feature_constructors.py
index 410f980..24a1972 100644
--- a/putting_dune/feature_constructors.py
+++ b/putting_dune/feature_constructors.py
@@ -66,7 +66,7 @@ def _get_silicon_goal_delta(
     goal: goals.SingleSiliconGoalReaching,
 ) -> np.ndarray:
   """Gets the delta from the current silicon position to goal in angstroms."""
-  silicon_position = graphene.get_silicon_positions(grid).reshape(2)
+  silicon_position = graphene.get_single_silicon_position(grid).reshape(2)
   silicon_position_material_frame = fov.microscope_frame_to_material_frame(
       silicon_position
   )
@@ -188,7 +188,9 @@ class SingleSiliconMaterialFrameFeatureConstructor(FeatureConstructor):
     goal = typing.cast(goals.SingleSiliconGoalReaching, goal)
     grid = observation.fov.microscope_frame_to_material_frame(observation.grid)
 
-    silicon_position = graphene.get_single_silicon_position(grid)
+    silicon_position = observation.fov.microscope_frame_to_material_frame(
+        graphene.get_single_silicon_position(observation.grid)
+    )
 
     # Ensure the silicon position shape is correct.
     silicon_position = silicon_position.reshape(2)
-- 
2.43.0


From adc996e7e1f2d9439b3c91c9cfd35be144ccb7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:46 +0000
Subject: [PATCH 05/55] fix: keep the voltage and current of commands applied
 to the material

---
 putting_dune/simulator.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/putting_dune/simulator.py b/putting_dune/simulator.py
index 26618ea..1025bde 100644
--- a/putting_dune/simulator.py
+++ b/putting_dune/simulator.py
@@ -134,11 +134,8 @@ class PuttingDuneSimulator:
     for control in controls:
       # Convert the control from the microscope frame to material frame.
       # TODO(joshgreaves): Control clipping to [0, 1]?
-      control_position = self._fov.microscope_frame_to_material_frame(
-          control.position
-      )
       control = microscope_utils.BeamControlMaterialFrame(
-          microscope_utils.BeamControl(control_position, control.dwell_time)
+          self._fov.microscope_frame_to_material_frame(control)
       )
 
       for observer in self._observers:
-- 
2.43.0


From 50fba846ea2e07cb7aa7b71de8ae4e04f7f50508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:46 +0000
Subject: [PATCH 06/55] fix: number logged episodes like their steps

---
 putting_dune/microscope_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index 69e07bb..a206654 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -225,8 +225,8 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       observation: microscope_utils.MicroscopeObservation,
   ) -> None:
     if self._episode_step > 0:
-      self._episode += 1
       self._episode_records.append(self._make_episode_record())
+      self._episode += 1
     if self._current_trajectory:
       self._trajectories.append(
           microscope_utils.Trajectory(self._current_trajectory)
-- 
2.43.0


From 355cb6566b7b1cbccda359a6c7000c78b89cf2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:46 +0000
Subject: [PATCH 07/55] fix: flushing the agent's log twice does not duplicate
 the open episode

---
 putting_dune/microscope_agent.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index a206654..ba9863d 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -188,17 +188,21 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       self.flush()
 
   def flush(self) -> None:
+    # The unfinished episode is included, but not closed: it may go on, and
+    # flushing again must not log it twice.
+    trajectories = list(self._trajectories)
+    episode_records = list(self._episode_records)
     if self._current_trajectory:
-      self._trajectories.append(
+      trajectories.append(
           microscope_utils.Trajectory(self._current_trajectory)
       )
     if self._episode_step != 0:
-      self._episode_records.append(self._make_episode_record())
+      episode_records.append(self._make_episode_record())
 
     # Write the records
     pdio.write_records(
         self._logdir / 'trajectories.tfrecords',
-        self._trajectories,
+        trajectories,
     )
 
     # Write steps
@@ -216,7 +220,7 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
           fp, fieldnames=typing.get_type_hints(EpisodeRecord).keys()
       )
       writer.writeheader()
-      for record in self._episode_records:
+      for record in episode_records:
         writer.writerow(record)
 
   def reset(
-- 
2.43.0


From 41bdc5df5fe66414ec4cdbc3864fcbc3380f5ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:46 +0000
Subject: [PATCH 08/55] fix: log steps in which no dopant is visible instead of
 failing

---
 putting_dune/microscope_agent.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index ba9863d..207234f 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -247,9 +247,15 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       observation: microscope_utils.MicroscopeObservation,
   ) -> List[microscope_utils.BeamControlMicroscopeFrame]:
     beam_control = self.__wrapped__.step(observation)
-    goal_return = self.__wrapped__.goal.calculate_reward_and_terminal(
-        observation
-    )
+    try:
+      goal_return = self.__wrapped__.goal.calculate_reward_and_terminal(
+          observation
+      )
+    except graphene.SiliconNotFoundError:
+      # The agent asked for a rescan; log the step without a reward.
+      goal_return = goals.GoalReturn(
+          reward=0.0, is_terminal=False, is_truncated=False
+      )
     self._episode_step += 1
     self._episode_return += goal_return.reward
 
-- 
2.43.0


From aed0bbeddaadd1a904a1260755882b5c901555d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 09/55] fix: give synthetic beam positions the rates of their
 own neighbors

---
 putting_dune/rate_learning/data_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index f5b457f..4e89142 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -249,8 +249,13 @@ def generate_synthetic_data(
         constants.SIGR_PRIOR_RATE_COV * 1.5,
     )
     context = jax.random.normal(context_key, shape=(context_dim,))
+    # Neighbor n is n steps counter-clockwise, so turn the beam position n steps
+    # clockwise to see it as it is seen from neighbor n.
+    neighbor_order = -jnp.arange(num_states) % num_states
     rates = graphene.single_silicon_prior_rates(  # pytype: disable=wrong-arg-types  # jnp-type
-        get_all_position_rotations(position, num_states=num_states),
+        get_all_position_rotations(position, num_states=num_states)[
+            neighbor_order
+        ],
         mean=constants.SIGR_PRIOR_RATE_MEAN,
         cov=constants.SIGR_PRIOR_RATE_COV,
         max_rate=constants.SIGR_PRIOR_MAX_RATE,
-- 
2.43.0


From ce4204a312cb82f2f3f37d4f6b3ae29a44e9c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 10/55] fix: predict rates with the beam's voltage and current

---
 putting_dune/rate_learning/learn_rates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 7bd6898..5035d8f 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -959,9 +959,9 @@ class LearnedTransitionRatePredictor:
     )
     context = new_beam_pos
     if self.config.use_voltage:
-      context = np.concatenate([voltage_kv, context], axis=-1)
+      context = np.concatenate([[[voltage_kv]], context], axis=-1)
     if self.config.use_current:
-      context = np.concatenate([current_na, context], axis=-1)
+      context = np.concatenate([[[current_na]], context], axis=-1)
 
     rates = np.asarray(self.packaged_model(context))[0]
 
-- 
2.43.0


From 2e3390fbcd921fd1d3e2693ca6cf4e3cb3f7126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 11/55] fix: turn the packaged model's outputs into rates when
 predicting

---
 putting_dune/rate_learning/learn_rates.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 5035d8f..c1a7e2b 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -963,7 +963,12 @@ class LearnedTransitionRatePredictor:
     if self.config.use_current:
       context = np.concatenate([[[current_na]], context], axis=-1)
 
-    rates = np.asarray(self.packaged_model(context))[0]
+    # The packaged model outputs directional logits followed by a total rate.
+    # Use __call__ explicitly, since a tf.Module isn't callable unless loaded.
+    outputs = np.asarray(
+        self.packaged_model.__call__(context.astype(np.float32))
+    )[0]
+    rates = outputs[-1] * np.asarray(jax.nn.softmax(outputs[:-1]))
 
     # neighbor_order is an array mapping the canonical order of neighbors
     # (increasing angle from (1, 0)) to the order they were given in.
-- 
2.43.0


From 8afb74ae6acbcf32b92bd15021f8e56f79876b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 12/55] fix: skip transitions showing too few atoms instead of
 failing

---
 putting_dune/pipeline/train_rate_learner.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 081695a..f9bd4a3 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -353,6 +353,13 @@ def transitions_to_datapoints(
       wrong_number_of_silicons_count += 1
       continue
 
+    if grid_before.atom_positions.shape[0] < 1 + 9:
+      wrong_number_of_neighbors_count += 1
+      continue
+    if grid_after.atom_positions.shape[0] < 1 + 3:
+      wrong_number_of_next_step_neighbors_count += 1
+      continue
+
     # Get the neighbors of the grid before.
     _, neighbor_indices_before = (
         skneighbors.NearestNeighbors(
-- 
2.43.0


From 9c57c9375364f3f6b269dc7b7e4c3f29a929a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 13/55] fix: compute the loss of each transition from its own
 prediction

---
 putting_dune/rate_learning/learn_rates.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index c1a7e2b..916d816 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -130,6 +130,12 @@ def batched_loss_fn(
   Returns:
     Mean loss, tuple of (predicted rates, rate loss, classification loss).
   """
+  # Synthetic data comes with columns, which would be broadcast to every pair of
+  # transitions below.
+  next_state = next_state.reshape(-1)
+  elapsed_time = elapsed_time.reshape(-1)
+  did_transition = did_transition.reshape(-1)
+
   predicted_rates, network_state = apply_fn(
       params, network_state, key, context, is_training
   )
-- 
2.43.0


From e0be0e075c9b2403dbc70cff6833d08427e10bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 14/55] fix: return predicted rates per neighbor next to the
 loss

---
 putting_dune/rate_learning/learn_rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 916d816..0e80e77 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -154,7 +154,7 @@ def batched_loss_fn(
       next_state_logprobs[jnp.arange(next_state.shape[0]), next_state - 1]
       * did_transition
   )
-  next_state_probs = jax.nn.softmax(predicted_rates[:, -1:], axis=-1)
+  next_state_probs = jax.nn.softmax(predicted_rates[:, :-1], axis=-1)
 
   losses = (
       next_state_loss * class_loss_weight + total_rate_loss * rate_loss_weight
-- 
2.43.0


From e9c9090535c17406cf37f9c79a3ca643b806cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 15/55] fix: allow bootstrap samples that draw every datapoint

---
 putting_dune/rate_learning/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index 4e89142..b65f2ff 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -325,7 +325,7 @@ def bootstrap_dataset(data: Mapping[str, np.ndarray], rng: jnp.ndarray):
   )
   train_data = {k: a[indices] for k, a in data.items()}
   test_indices = set(range(original_length)) - set(np.array(indices))
-  test_indices = np.array(list(test_indices))
+  test_indices = np.array(list(test_indices), dtype=int)
   test_data = {k: a[test_indices] for k, a in data.items()}
   return train_data, test_data
 
-- 
2.43.0


From 6f0ec7c4ac6041e9d2799d8ab736f0c96a232ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 16/55] fix: average the models of an ensemble when packaging
 it

---
 putting_dune/rate_learning/learn_rates.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 0e80e77..3f11434 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -906,7 +906,14 @@ class LearnedTransitionRatePredictor:
       rates, _ = self.batch_apply(
           self.params, self.state, context, self.rng, False
       )
-      return jnp.squeeze(rates, axis=0)
+      if rates.shape[0] == 1:
+        return jnp.squeeze(rates, axis=0)
+      # Average the rates (not the logits) of the models, as in apply_model.
+      total_rates = jnp.maximum(rates[..., -1:], jnp.finfo(jnp.float32).tiny)
+      logits = jnp.log(
+          (total_rates * jax.nn.softmax(rates[..., :-1], axis=-1)).mean(0)
+      )
+      return jnp.concatenate([logits, total_rates.mean(0)], axis=-1)
 
     apply_model = functools.partial(apply_model, fixed_context=fixed_context)
     apply_model = jax.jit(apply_model)
-- 
2.43.0


From ab50116be8b8812ee0b4f5a144e815a456406a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 17/55] fix: carry rounded hundredths when formatting durations

---
 putting_dune/plotting_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/putting_dune/plotting_utils.py b/putting_dune/plotting_utils.py
index 8f9a1a1..968ac70 100644
--- a/putting_dune/plotting_utils.py
+++ b/putting_dune/plotting_utils.py
@@ -33,10 +33,8 @@ _SimulatorEventType = simulator_observers.SimulatorEventType
 
 
 def format_timedelta(delta: dt.timedelta) -> str:
-  total_seconds = delta.total_seconds()
-  minutes = int(total_seconds) // 60
-  seconds = int(total_seconds) % 60
-  remainder = round((total_seconds - int(total_seconds)) * 100)
+  total_seconds, remainder = divmod(round(delta.total_seconds() * 100), 100)
+  minutes, seconds = divmod(total_seconds, 60)
   return f'{minutes:02d}:{seconds:02d}:{remainder:02d}'
 
 
-- 
2.43.0


From 6cfdfff9e995d491247f135d60f401397b912cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 18/55] fix: search the greedy position within bounds given per
 dimension

---
 putting_dune/agents/agent_lib.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/putting_dune/agents/agent_lib.py b/putting_dune/agents/agent_lib.py
index 398ae09..682ee40 100644
--- a/putting_dune/agents/agent_lib.py
+++ b/putting_dune/agents/agent_lib.py
@@ -149,10 +149,14 @@ class GreedyAgent(Agent):
       The approximate argmax of the transition function with respect to
       transitioning to neighbor 0.
     """
-    num_points = int((self._high - self._low) // resolution)
-    points_1d = np.linspace(self._low, self._high, num_points, dtype=np.float32)
-    points_x = np.tile(points_1d[None], (num_points, 1))
-    points_y = np.tile(points_1d[:, None], (1, num_points))
+    # The bounds may be given per dimension.
+    points_1d = [
+        np.linspace(low, high, int((high - low) // resolution), dtype=np.float32)
+        for low, high in zip(
+            np.broadcast_to(self._low, (2,)), np.broadcast_to(self._high, (2,))
+        )
+    ]
+    points_x, points_y = np.meshgrid(*points_1d)
     points = np.stack([points_x, points_y], axis=-1)
     points = np.reshape(points, (-1, points.shape[-1]))
     transition_probabilities = np.stack(
-- 
2.43.0


From 4930193199937d15e8fa0304c603dedbbac7a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 19/55] fix: detect atoms in images without carbon or without
 silicon

---
 putting_dune/atom_detector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 69c9742..469edb0 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -175,11 +175,12 @@ class AtomDetector:
 
     return microscope_utils.AtomicGridMicroscopeFrame(
         microscope_utils.AtomicGrid(
-            atom_positions=np.concatenate(
-                [carbon_centroids, silicon_centroids]
+            # There may be no atoms of a kind.
+            atom_positions=np.reshape(
+                carbon_centroids + silicon_centroids, (-1, 2)
             ),
             atomic_numbers=np.concatenate(
                 [carbon_atomic_numbers, silicon_atomic_numbers]
-            ),
+            ).astype(np.int32),
         )
     )
-- 
2.43.0


From 669e2e5f0f9347a9646487e63c0f7c8470d85855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 20/55] fix: draw episodes in which no control was applied

---
 putting_dune/plotting_utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/putting_dune/plotting_utils.py b/putting_dune/plotting_utils.py
index 968ac70..4ae13ba 100644
--- a/putting_dune/plotting_utils.py
+++ b/putting_dune/plotting_utils.py
@@ -194,19 +194,24 @@ def generate_video_from_simulator_events(
         args['grid']
     )
     # We make a grid containing just the goal and control to make it easy
-    # to convert them to the microscope frame.
+    # to convert them to the microscope frame. There is no control position
+    # before the first control.
+    points = [goal_position]
+    if args['control_position'] is not None:
+      points.append(args['control_position'])
     material_frame_data = microscope_utils.AtomicGrid(
-        atom_positions=np.stack([goal_position, args['control_position']]),
+        atom_positions=np.stack(points),
         atomic_numbers=np.asarray(()),  # Unused.
     )
     microscope_frame_data = args['fov'].material_frame_to_microscope_frame(
         material_frame_data
     )
+    goal, *controls = microscope_frame_data.atom_positions
     plot_microscope_frame(
         ax=axes[1],
         grid=microscope_grid,
-        goal_position=microscope_frame_data.atom_positions[0],
-        control_position=microscope_frame_data.atom_positions[1],
+        goal_position=goal,
+        control_position=controls[0] if controls else None,
     )
 
     if events_contain_images and args['image'] is not None:
-- 
2.43.0


From ce2d101aeb65fcafdb83cee0f6bc617e3123a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 21/55] fix: render environments once a control was applied

---
 putting_dune/putting_dune_environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/putting_dune/putting_dune_environment.py b/putting_dune/putting_dune_environment.py
index ccee73b..66be769 100644
--- a/putting_dune/putting_dune_environment.py
+++ b/putting_dune/putting_dune_environment.py
@@ -170,7 +170,9 @@ class PuttingDuneEnvironment(dm_env.Environment):
     # TODO(joshgreaves): beam_position lags by 1 timestep.
     previous_controls = self.last_microscope_observation.controls
     if previous_controls:
-      beam_position = np.asarray(previous_controls[-1].position.coords)
+      beam_position = np.asarray(previous_controls[-1].position.coords).reshape(
+          -1
+      )
     else:
       beam_position = None
 
-- 
2.43.0


From 101d502a8b0dea2e80165fc091fd7b70677b811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 22/55] fix: generate masks of images that are not square

---
 putting_dune/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index 12874d2..fbcd991 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -98,7 +98,7 @@ def generate_grid_mask(
   # We need to work with a grid in the material frame to work out distances
   # in angstroms.
   material_grid = fov.microscope_frame_to_material_frame(grid)
-  mask = np.zeros(image_dimensions, dtype=np.uint8)
+  mask = np.zeros((height, width), dtype=np.uint8)
 
   for pos, atomic_number in zip(
       material_grid.atom_positions, material_grid.atomic_numbers
-- 
2.43.0


From 20397f0859b75ed4a78fb656ab2d2bd833c521d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 23/55] fix: blur images of oblong views along the right axes

---
 putting_dune/imaging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index fbcd991..f4c1b13 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -158,7 +158,8 @@ def generate_clean_image(
   # For example, at 512 pixels with 20 angstrom FOV => sigma = 12
   # => sigma = 200 / FOV ~= image_size / (2 * FOV)
   # Empirically, this looks about right.
-  sigma = (image_size / (2.15 * fov_width), image_size / (2.15 * fov_height))
+  # The first axis of the image runs along the height of the FOV.
+  sigma = (image_size / (2.15 * fov_height), image_size / (2.15 * fov_width))
 
   image = ndimage.gaussian_filter(image, sigma, mode='constant')
 
-- 
2.43.0


From 1ca1896e15048d78bca1c978c9a6b8a3ba769e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 24/55] fix: start every alignment from the shift given

---
 putting_dune/alignment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 2caa0e0..58aee2b 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -121,7 +121,8 @@ def align_latest(
   if init_shift is None:
     cumulative_drift = np.zeros(new_coordinates.shape[-1])
   else:
-    cumulative_drift = init_shift
+    # This is updated in place below, so it must not be the caller's array.
+    cumulative_drift = np.array(init_shift, dtype=np.float64)
   noise_scales = np.linspace(noise_scale, 0, num=iterations)
   class_masks = [new_classes == i for i in set(new_classes)]
   reference_class_masks = [reference_classes == i for i in set(new_classes)]
-- 
2.43.0


From 26b9e7eafa9dc61a1f876fedcd820f788aa4fbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 25/55] fix: align observations with few or no comparable atoms

---
 putting_dune/alignment.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 58aee2b..52f55b4 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -124,8 +124,10 @@ def align_latest(
     # This is updated in place below, so it must not be the caller's array.
     cumulative_drift = np.array(init_shift, dtype=np.float64)
   noise_scales = np.linspace(noise_scale, 0, num=iterations)
-  class_masks = [new_classes == i for i in set(new_classes)]
-  reference_class_masks = [reference_classes == i for i in set(new_classes)]
+  # Only classes that are present in the reference can be compared.
+  classes = set(new_classes) & set(reference_classes)
+  class_masks = [new_classes == i for i in classes]
+  reference_class_masks = [reference_classes == i for i in classes]
 
   for i in range(iterations):
     noise_scale = noise_scales[i]
@@ -138,12 +140,16 @@ def align_latest(
         )
         for mask, ref_mask in zip(class_masks, reference_class_masks)
     ]
-    offsets = np.concatenate(offsets)
+    offsets = np.concatenate([np.zeros((0, 2)), *offsets])
+
+    # There may be nothing close enough to compare with.
+    if not len(offsets):
+      continue
 
     if trim > 0:
       distances = np.linalg.norm(offsets, axis=-1)
       sorted_distances = np.argsort(distances)
-      offsets = offsets[sorted_distances[: int((1 - trim) * len(offsets))]]
+      offsets = offsets[sorted_distances[: max(int((1 - trim) * len(offsets)), 1)]]
 
     offset = offsets.mean(axis=0)
     cumulative_drift += noise + offset
-- 
2.43.0


From b20cd98c295a5665ceb1ee35d55ba899f552be09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 26/55] fix: leave observations alone when merging them

---
 putting_dune/alignment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 52f55b4..0cb04f9 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -808,7 +808,8 @@ def naive_merge(
       mapped to each merged point.
   """
   coordinates = [c for c in coordinates if c.shape[0]]
-  positions = coordinates[0]
+  # This is updated in place below, so it must not be the caller's array.
+  positions = coordinates[0].copy()
   counts = np.ones(coordinates[0].shape[:1])
 
   for m in coordinates[1:]:
-- 
2.43.0


From b23d826305f63fef373c8cd51baaea4e5e22df9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 27/55] fix: detect one atom per blob, however large

Distances above 1 px wrapped around when cast to 8 bits, which punched holes
into blobs, and every hole was reported as another atom.
---
 putting_dune/atom_detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 469edb0..f003b73 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -51,7 +51,8 @@ def compute_centroids(
 
   # Perform distance transform on the masked image
   dists = cv2.distanceTransform(masked, cv2.DIST_L2, cv2.DIST_MASK_PRECISE)
-  dists = (dists * 255).astype(np.uint8)
+  # Saturate, as larger distances would wrap around.
+  dists = np.minimum(dists * 255, 255).astype(np.uint8)
 
   # Threshold the distances by the threshold value.
   _, dists = cv2.threshold(dists, threshold_value, 255, cv2.THRESH_BINARY)
-- 
2.43.0


From b74bdf7feee9c91b3ace7993c8f293ce35bcbb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 28/55] fix: locate atoms of a single pixel

They were all reported in the upper left corner of the image.
---
 putting_dune/atom_detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index f003b73..d235bcc 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -72,7 +72,8 @@ def compute_centroids(
       c_x = int(m["m10"] / m["m00"])
       c_y = int(m["m01"] / m["m00"])
     else:
-      c_x, c_y = 0, 0
+      # Contours of a single pixel or line have no area.
+      c_x, c_y = contour.reshape(-1, 2).mean(axis=0).astype(int)
 
     # Normalize centroid values so that 0,0 is bottom left and 1,1 is top right
     centroids.append((c_x / 256, 1.0 - c_y / 256))
-- 
2.43.0


From ebd274b7c88608ce4d4ac88ea74d79fe240f3b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 29/55] fix: locate atoms in images that are not square

x runs along the columns of an image and y along its rows.
---
 putting_dune/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 0cb04f9..580c3c8 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -406,7 +406,7 @@ class ImageAligner:
         c_x, c_y = 0, 0
 
       # Normalize so that 0,0 is bottom left and 1,1 is top right
-      centroids.append((c_x / classes.shape[0], 1.0 - c_y / classes.shape[1]))
+      centroids.append((c_x / classes.shape[1], 1.0 - c_y / classes.shape[0]))
     return centroids
 
   @classmethod
-- 
2.43.0


From 26e706e08ba436eba483c5f50442160e47f1613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 30/55] fix: find the record files of a directory

Record files end in .tfrecords; files ending in .recordio could not even be
read.
---
 putting_dune/pipeline/align_trajectories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/align_trajectories.py b/putting_dune/pipeline/align_trajectories.py
index 5d681e4..4c215d1 100644
--- a/putting_dune/pipeline/align_trajectories.py
+++ b/putting_dune/pipeline/align_trajectories.py
@@ -94,7 +94,7 @@ def do_alignment(
 def main(args: Args) -> None:
   trajectories = []
   if args.source_path.is_dir():
-    files = list(args.source_path.glob('*.recordio'))
+    files = list(args.source_path.glob('*.tfrecords'))
   else:
     files = [args.source_path]
   for file in files:
-- 
2.43.0


From 13fe1e6ab31ea9b2ccd2ac647e137ee30b2c97e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 31/55] fix: keep the label image when applying drift to an
 observation

---
 putting_dune/microscope_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index d4d4070..d7b8177 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -803,6 +803,7 @@ class Drift(ProtoModel[putting_dune_pb2.Drift]):
         controls=observation.controls,
         elapsed_time=observation.elapsed_time,
         image=observation.image,
+        label_image=observation.label_image,
     )
     return shifted_observation
 
-- 
2.43.0


From 082a3e27a26531778d1a82af81675f2b1078688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 32/55] fix: upload beam positions in the microscope frame

Observations hold their controls in the microscope frame, and everything
reading them converts them to the material frame.
---
 putting_dune/pipeline/upload_microscope_data.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index e6eccd6..14df6ec 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -170,7 +170,6 @@ def convert_dataset_to_proto(
       beam_loc = geometry.PointMicroscopeFrame(
           geometry.Point(beam_loc[0], beam_loc[1])
       )
-      beam_loc = fov.microscope_frame_to_material_frame(beam_loc)
       beam_control = (
           microscope_utils.BeamControl(
               beam_loc,
-- 
2.43.0


From 883e42968fd39feef441c3703807c67eefa47573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 33/55] fix: compare grids without atoms

Searching for neighbors fails without any atoms.
---
 putting_dune/microscope_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index d7b8177..98dd37b 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -156,6 +156,8 @@ class AtomicGrid(ProtoModel[putting_dune_pb2.AtomicGrid]):
       return False
     if self.atomic_numbers.shape != other.atomic_numbers.shape:
       return False
+    if not self.atom_positions.shape[0]:
+      return True
 
     neighbor_distances, neighbor_indices = (
         neighbors.NearestNeighbors(n_neighbors=1)
-- 
2.43.0


From b3eae7fbdc499d9799426dbc0f70508b0c7567d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:39 +0000
Subject: [PATCH 34/55] fix: save the network state along with the parameters

---
 putting_dune/rate_learning/learn_rates.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 3f11434..41ec046 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -850,6 +850,9 @@ class LearnedTransitionRatePredictor:
     path = epath.Path(checkpoint_path)
     with path.open('wb') as f:
       f.write(flax.serialization.to_bytes(self.params))
+    state_path = epath.Path(os.path.join(save_dir, str(step) + '.state.ckpt'))
+    with state_path.open('wb') as f:
+      f.write(flax.serialization.to_bytes(self.state))
 
     self.package_model(fixed_context=fixed_context)
     logging.info('Saving tf saved model to %s', save_dir)
@@ -878,6 +881,11 @@ class LearnedTransitionRatePredictor:
       path = epath.Path(checkpoint_path)
       with path.open('rb') as f:
         self.params = flax.serialization.from_bytes(self.params, f.read())
+      # Checkpoints written by earlier versions don't include the state.
+      state_path = epath.Path(os.path.join(load_dir, str(step) + '.state.ckpt'))
+      if state_path.exists():
+        with state_path.open('rb') as f:
+          self.state = flax.serialization.from_bytes(self.state, f.read())
     self.packaged_model = tf.saved_model.load(load_dir)
 
     if load_config:
-- 
2.43.0


From f92183d0958573ebec2519e013140f199436b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 35/55] fix: predict rates with models packaged for a fixed
 context

---
 putting_dune/rate_learning/learn_rates.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 41ec046..6dd2075 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -689,6 +689,7 @@ class LearnedTransitionRatePredictor:
     self.params = tree_stack(all_params)
     self.state = tree_stack(all_states)
     self.num_states = num_states
+    self.num_inputs = self.context_dim
 
     self.config = config
 
@@ -887,6 +888,12 @@ class LearnedTransitionRatePredictor:
         with state_path.open('rb') as f:
           self.state = flax.serialization.from_bytes(self.state, f.read())
     self.packaged_model = tf.saved_model.load(load_dir)
+    (inputs,), _ = (
+        self.packaged_model.__call__.concrete_functions[
+            0
+        ].structured_input_signature
+    )
+    self.num_inputs = inputs.shape[-1]
 
     if load_config:
       config_path = epath.Path(os.path.join(load_dir, 'config.json'))
@@ -905,6 +912,7 @@ class LearnedTransitionRatePredictor:
     else:
       input_shape = (1, self.context_dim - fixed_context.shape[0])
       fixed_context = jnp.asarray(fixed_context)
+    self.num_inputs = input_shape[1]
 
     def apply_model(context, fixed_context):
       if fixed_context is not None:
@@ -984,6 +992,9 @@ class LearnedTransitionRatePredictor:
     if self.config.use_current:
       context = np.concatenate([[[current_na]], context], axis=-1)
 
+    # Inputs fixed when packaging the model are not passed to it again.
+    context = context[:, -self.num_inputs :]
+
     # The packaged model outputs directional logits followed by a total rate.
     # Use __call__ explicitly, since a tf.Module isn't callable unless loaded.
     outputs = np.asarray(
-- 
2.43.0


From a54850f51ba8bf774890ae38479d8ab6b8e094da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 36/55] fix: predict with the parameters trained last

---
 putting_dune/rate_learning/learn_rates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 6dd2075..aa82beb 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -779,6 +779,8 @@ class LearnedTransitionRatePredictor:
             train_config=self.config,
         )
     )
+    # Have predictions package the new parameters.
+    vars(self).pop('packaged_model', None)
 
     return train_metrics
 
@@ -828,6 +830,7 @@ class LearnedTransitionRatePredictor:
     )
     self.params = tree_stack([distillation_params])
     self.state = tree_stack([distillation_state])
+    vars(self).pop('packaged_model', None)
 
     return distill_metrics
 
-- 
2.43.0


From a43f50042a7adaa89b485b65fecf062187c9cd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 37/55] fix: learn rates without any context

---
 putting_dune/pipeline/train_rate_learner.py |  8 ++++---
 putting_dune/rate_learning/learn_rates.py   | 24 ++++++++++++---------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index f9bd4a3..deceb54 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -723,7 +723,7 @@ def main(args: Args) -> None:
     )
 
     training_metrics = rate_predictor.train(
-        {k: jnp.asarray(v) for k, v in stacked_data.items()},
+        {k: jnp.asarray(v) for k, v in stacked_data.items() if v is not None},
         rate_predictor_keys[1],
         bootstrap=args.bootstrap,
     )
@@ -762,14 +762,16 @@ def main(args: Args) -> None:
 
       rate_predictor.distill(augmented_data, config=distillation_defaults)
 
-    avg_context = np.median(stacked_data['context'], axis=0)
+    avg_context = None
+    if stacked_data['context'] is not None:
+      avg_context = np.median(stacked_data['context'], axis=0)
     rate_predictor.save(args.workdir.as_posix(), fixed_context=avg_context)
     rate_prediction_function = rate_predictor.apply_model
 
   # Using a scikit-learn classifier
   else:
     train_datasets, test_datasets = learn_rates.create_dataset_splits(
-        {k: jnp.asarray(v) for k, v in stacked_data.items()},
+        {k: jnp.asarray(v) for k, v in stacked_data.items() if v is not None},
         num_splits=args.num_models,
         key=rng_key,
         bootstrap=args.bootstrap,
diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index aa82beb..c79d4a7 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -555,6 +555,7 @@ def create_dataset_splits(
   Returns:
     Training datasets and testing datasets, stacked along axis 0.
   """
+  train_data = {k: a for k, a in train_data.items() if a is not None}
 
   data_keys = jax.random.split(key, num_splits)
   if bootstrap:
@@ -581,9 +582,9 @@ def create_dataset_splits(
     ]
     test_datasets = [data_utils.augment_data(**data) for data in test_datasets]
 
-  test_set_len = min([a['context'].shape[0] for a in test_datasets])
+  test_set_len = min([a['next_state'].shape[0] for a in test_datasets])
   test_datasets = [
-      {k: a[:test_set_len] for k, a in d.items()} for d in test_datasets
+      {k: d[k][:test_set_len] for k in train_data.keys()} for d in test_datasets
   ]
 
   train_datasets = {
@@ -593,7 +594,12 @@ def create_dataset_splits(
       k: jnp.stack([d[k] for d in test_datasets]) for k in train_data.keys()
   }
 
-  if 'position' in train_datasets and 'context' in train_datasets:
+  if 'position' in train_datasets and 'context' not in train_datasets:
+    train_datasets['context'] = train_datasets['position']
+    test_datasets['context'] = test_datasets['position']
+    del train_datasets['position']
+    del test_datasets['position']
+  elif 'position' in train_datasets:
     train_datasets['context'] = jnp.concatenate(
         [train_datasets['context'], train_datasets['position']], -1
     )
@@ -805,13 +811,11 @@ class LearnedTransitionRatePredictor:
         self.config.learning_rate, weight_decay=self.config.weight_decay
     )
 
-    data_mean = np.concatenate(
-        [train_data['context'].mean(0), train_data['position'].mean(0)], 0
-    )
-
-    data_scale = np.concatenate(
-        [train_data['context'].std(0), train_data['position'].std(0)], 0
-    )
+    inputs = np.asarray(train_data['position'])
+    if train_data.get('context') is not None:
+      inputs = np.concatenate([train_data['context'], inputs], -1)
+    data_mean = inputs.mean(0)
+    data_scale = inputs.std(0)
 
     distillation_params, distillation_state, self.rng, distill_metrics = (
         distill_multiple_models_to_single(
-- 
2.43.0


From 392eb59ea53b7a43eccaf641dd989cdbc9183ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:33 +0000
Subject: [PATCH 38/55] fix: give classification networks the dwell time they
 are trained on

---
 putting_dune/pipeline/train_rate_learner.py | 8 ++++++--
 putting_dune/rate_learning/learn_rates.py   | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index deceb54..e21748d 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -677,11 +677,12 @@ def main(args: Args) -> None:
     counts[t['next_state']] += 1
   print(counts, flush=True)
 
+  dwell_time_in_context = args.learner_type != LearnerType.RATE_NETWORK
   stacked_data = stack_data(
       processed_transitions,
       use_current=args.use_current,
       use_voltage=args.use_voltage,
-      dwell_time_in_context=args.learner_type != LearnerType.RATE_NETWORK,
+      dwell_time_in_context=dwell_time_in_context,
   )
 
   rng_key = jax.random.PRNGKey(args.seed)
@@ -709,7 +710,10 @@ def main(args: Args) -> None:
       ),
   )
 
-  frozen_config = config_dict.FrozenConfigDict(dataclasses.asdict(args))
+  frozen_config = config_dict.FrozenConfigDict({
+      **dataclasses.asdict(args),
+      'dwell_time_in_context': dwell_time_in_context,
+  })
 
   if (
       args.learner_type == LearnerType.RATE_NETWORK
diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index c79d4a7..fe00230 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -685,6 +685,7 @@ class LearnedTransitionRatePredictor:
         dropout_rate=config.dropout_rate,
     )
     self.context_dim = position_dim + config.use_current + config.use_voltage
+    self.context_dim += config.get('dwell_time_in_context', False)
     self.rng, *keys = jax.random.split(init_key, self.num_models + 1)
     all_params = []
     all_states = []
-- 
2.43.0


From 7ce938fa5f0a5923f82f6bf5590d3307bd5df93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:29 +0000
Subject: [PATCH 39/55] fix: upload datasets whose names have dots under their
 own names

---
 putting_dune/pipeline/upload_microscope_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index 14df6ec..8e2ae4c 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -219,7 +219,8 @@ def main(args: Args) -> None:
                 dataset_path.relative_to(args.directory).parts,
             )
         )
-    ).with_suffix('.riegeli')
+        + '.riegeli'
+    )
     pbar.set_postfix_str(filename)
 
     # Load dataset
-- 
2.43.0


From 22f19223fc7c529132aa598dcdf111fcd968f99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 40/55] fix: plot the neighbors of transitions

---
 putting_dune/pipeline/train_rate_learner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index e21748d..89ddf8b 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -263,8 +263,8 @@ def plot_transition(
     position = neighbor_positions[neighbor_order[i] + 1]
     position = fov_before.material_frame_to_microscope_frame(position)
     plt.scatter(
-        imsize[0] * position[0],
-        imsize[1] - imsize[1] * position[1],
+        imsize * position[0],
+        imsize - imsize * position[1],
         marker='x' if i + 1 == next_state else '+',
         label='Neighbor {}'.format(i + 1),
     )
-- 
2.43.0


From 75c81deb8d1724350b3ec132e32dd6ac33db4d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:26 +0000
Subject: [PATCH 41/55] fix: predict rates at beam positions in angstroms, as
 in training

---
 putting_dune/rate_learning/learn_rates.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index fe00230..c17b808 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -31,7 +31,6 @@ import matplotlib.pyplot as plt
 from ml_collections import config_dict
 import numpy as np
 import optax
-from putting_dune import constants
 from putting_dune import geometry
 from putting_dune import microscope_utils
 from putting_dune.rate_learning import data_utils
@@ -989,7 +988,6 @@ class LearnedTransitionRatePredictor:
     neighbor_positions = grid.atom_positions[neighbor_indices, :]
     neighbor_positions = neighbor_positions - current_position
     beam_pos = beam_pos - current_position
-    beam_pos = beam_pos / constants.CARBON_BOND_DISTANCE_ANGSTROMS
     new_beam_pos, _, neighbor_order = data_utils.standardize_beam_and_neighbors(
         beam_pos,
         neighbor_positions,
-- 
2.43.0


From 4b7472640ec6fe237e904ae132766f778aaaa8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:26 +0000
Subject: [PATCH 42/55] fix: visualize rates with fixed context for any number
 of points

---
 putting_dune/rate_learning/learn_rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index c17b808..0593731 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -1046,7 +1046,7 @@ def visualize_rates(
   coords = np.stack([xs, ys], -1)
   context = coords.reshape(-1, *coords.shape[2:])
   if fixed_context is not None:
-    fixed_context = np.repeat(fixed_context[None], num_points, 0)
+    fixed_context = np.repeat(fixed_context[None], context.shape[0], 0)
     context = np.concatenate([fixed_context, context], axis=-1)
 
   pred_rates = predict_rates(context)
-- 
2.43.0


From 0114d6ea755b625f0f3be1f81ba1c3835aa3dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:26 +0000
Subject: [PATCH 43/55] fix: accuracy of image alignment compares pixels with
 their labels

---
 putting_dune/image_alignment/train.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/putting_dune/image_alignment/train.py b/putting_dune/image_alignment/train.py
index f06924b..97af199 100644
--- a/putting_dune/image_alignment/train.py
+++ b/putting_dune/image_alignment/train.py
@@ -124,7 +124,9 @@ def train_step(
     drift_losses = jnp.square(batch['drift'] - pred_drift).sum(-1)
     drift_loss = jnp.mean(drift_losses)
     final_drift_loss = jnp.mean(drift_losses[..., -1])
-    accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(batch['mask'])
+    accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(
+        batch['mask'], axis=-1
+    )
     accuracy = jnp.mean(accuracies)
     final_accuracy = jnp.mean(accuracies[..., -1])
     drift_errors = jnp.linalg.norm(batch['drift'] - pred_drift, axis=-1)
@@ -177,7 +179,9 @@ def eval_step(
   drift_loss = jnp.mean(drift_losses)
   final_drift_loss = jnp.mean(drift_losses[..., -1])
 
-  accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(batch['mask'])
+  accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(
+      batch['mask'], axis=-1
+  )
   accuracy = jnp.mean(accuracies)
   final_accuracy = jnp.mean(accuracies[..., -1])
   drift_errors = jnp.linalg.norm(batch['drift'] - pred_drift, axis=-1)
-- 
2.43.0


From 1e47482a6708fdaaba5b4cca2a7065692ce70d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 44/55] fix: use the learning rate of scikit-learn MLPs, and
 let SVMs give probabilities

---
 putting_dune/pipeline/train_rate_learner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 89ddf8b..84363ad 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -131,7 +131,7 @@ def get_sklearn_classifier(
     model = sknn.MLPClassifier(
         alpha=config.weight_decay,
         max_iter=config.epochs,
-        learning_rate=config.learning_rate,
+        learning_rate_init=config.learning_rate,
         **kwargs,
     )
   elif learner_type == LearnerType.KNN:
@@ -145,7 +145,7 @@ def get_sklearn_classifier(
         max_depth=5, n_estimators=10, **kwargs
     )
   elif learner_type == LearnerType.SVM:
-    model = sksvm.SVC(gamma=2, C=1, **kwargs)
+    model = sksvm.SVC(gamma=2, C=1, probability=True, **kwargs)
   else:
     raise ValueError('Invalid learner type specified.')
 
-- 
2.43.0


From f3b23553b3d9189d03ae2709fc0f1648e592214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:28 +0000
Subject: [PATCH 45/55] fix: resume training after the last epoch kept

---
 putting_dune/atom_detection/train.py  | 3 ++-
 putting_dune/graph_alignment/train.py | 3 ++-
 putting_dune/image_alignment/train.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/putting_dune/atom_detection/train.py b/putting_dune/atom_detection/train.py
index d6c584e..e743a6e 100644
--- a/putting_dune/atom_detection/train.py
+++ b/putting_dune/atom_detection/train.py
@@ -259,8 +259,9 @@ def train(config: Config) -> TrainState:
       logging.info(metrics)
 
       with progress.timed('save-checkpoint'):
+        # Steps count the epochs completed, as in the final checkpoint.
         chkpt_manager.save(
-            step=epoch,
+            step=epoch + 1,
             items=state,
             metrics=metrics,
         )
diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index 05bf998..e36424f 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -430,8 +430,9 @@ def train(config: Config) -> TrainState:
 
       logging.info(metrics)
       with progress.timed('save-checkpoint'):
+        # Steps count the epochs completed, as in the final checkpoint.
         chkpt_manager.save(
-            step=epoch,
+            step=epoch + 1,
             items=clean_state,
             metrics=metrics,
         )
diff --git a/putting_dune/image_alignment/train.py b/putting_dune/image_alignment/train.py
index 97af199..0dcc987 100644
--- a/putting_dune/image_alignment/train.py
+++ b/putting_dune/image_alignment/train.py
@@ -436,8 +436,9 @@ def train(config: Config) -> TrainState:
         logging.info(metrics)
 
         with progress.timed('save-checkpoint'):
+          # Steps count the epochs completed, as in the final checkpoint.
           chkpt_manager.save(
-              step=epoch,
+              step=epoch + 1,
               items=state,
               metrics=metrics,
           )
-- 
2.43.0


From d264370eb6b4b8bc21ca8a8ae341c2906f9a364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:29 +0000
Subject: [PATCH 46/55] fix: train with the batch size configured

---
 putting_dune/atom_detection/train.py  | 1 +
 putting_dune/graph_alignment/train.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/putting_dune/atom_detection/train.py b/putting_dune/atom_detection/train.py
index e743a6e..0248624 100644
--- a/putting_dune/atom_detection/train.py
+++ b/putting_dune/atom_detection/train.py
@@ -193,6 +193,7 @@ def train(config: Config) -> TrainState:
 
   dataset_config = atom_detection_dataset.AtomDetectionDatasetConfig(
       data_dir=config.data_dir.as_posix(),
+      batch_size=config.batch_size,
   )
 
   train_ds, test_ds = atom_detection_dataset.make_dataset(
diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index e36424f..4e349db 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -284,6 +284,7 @@ def train(config: Config) -> TrainState:
 
   dataset_config = graph_alignment_dataset.GraphAlignmentDatasetConfig(
       data_dir=config.data_dir.as_posix(),
+      batch_size=config.batch_size,
   )
 
   train_ds, test_ds = graph_alignment_dataset.make_dataset(
-- 
2.43.0


From e93bf9ea9dfab9dea70a49337c167a7d128020f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:29 +0000
Subject: [PATCH 47/55] fix: restore graph aligners under the keys they are
 saved with

---
 putting_dune/graph_alignment/train.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index 4e349db..30f1f22 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -365,7 +365,10 @@ def train(config: Config) -> TrainState:
 
   if latest_step := chkpt_manager.latest_step():
     with progress.timed('restore-checkpoint'):
-      restored = chkpt_manager.restore(latest_step, items=state)
+      # States are saved with sanitized keys.
+      restored = chkpt_manager.restore(
+          latest_step, items=sanitize_state_keys(state)
+      )
       restored = sanitize_state_keys(
           restored, (('dummy_slash', '/'), ('dummy_tilde', '~'))
       )
-- 
2.43.0


From 708ad0990020a6c59976ff43c2645232ec572ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:29 +0000
Subject: [PATCH 48/55] fix: the best graph aligner is the one with the lowest
 loss

---
 putting_dune/graph_alignment/train.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index 30f1f22..6f77f25 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -277,6 +277,7 @@ def train(config: Config) -> TrainState:
       checkpointers=checkpoint.PyTreeCheckpointer(),
       options=checkpoint.CheckpointManagerOptions(
           best_fn=lambda metrics: metrics['eval/total_loss'],
+          best_mode='min',
           create=True,
       ),
       metadata=config.to_dict(),
-- 
2.43.0


From 87a4157a13aa6200aa778ddd65057fc83571a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:29 +0000
Subject: [PATCH 49/55] fix: package atom detectors under relative paths

---
 putting_dune/atom_detection/save_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/putting_dune/atom_detection/save_model.py b/putting_dune/atom_detection/save_model.py
index e815f51..e969564 100644
--- a/putting_dune/atom_detection/save_model.py
+++ b/putting_dune/atom_detection/save_model.py
@@ -119,9 +119,10 @@ def save(config: Config):
 
     zipped = zipfile.ZipFile(zip_path, 'w')
     for dirname, _, files in os.walk(save_path):
-      zipped.write(dirname)
+      zipped.write(dirname, os.path.relpath(dirname, tmpdir))
       for filename in files:
-        zipped.write(os.path.join(dirname, filename))
+        path = os.path.join(dirname, filename)
+        zipped.write(path, os.path.relpath(path, tmpdir))
     zipped.close()
     zip_path.copy(dst=copy_target, overwrite=config.overwrite)
 
-- 
2.43.0


From 665f0d7271b37dba3b7d863622d26842c716e2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:29 +0000
Subject: [PATCH 50/55] fix: package image aligners without leaving the working
 directory

---
 putting_dune/image_alignment/save_model.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/putting_dune/image_alignment/save_model.py b/putting_dune/image_alignment/save_model.py
index 1d43531..308b24a 100644
--- a/putting_dune/image_alignment/save_model.py
+++ b/putting_dune/image_alignment/save_model.py
@@ -136,17 +136,16 @@ def save(config: Config):
   logging.info('Will save model at: %s', copy_target)
 
   with tempfile.TemporaryDirectory() as tmpdir:
-    os.chdir(tmpdir)
     save_path = epath.Path(tmpdir) / 'image-alignment-model'
-    zip_path = epath.Path('image-alignment-model.zip')
+    zip_path = epath.Path(tmpdir) / 'image-alignment-model.zip'
     tf.saved_model.save(tf_module, save_path)
 
     zipped = zipfile.ZipFile(zip_path, 'w')
     for dirname, _, files in os.walk(save_path):
-      dirname = dirname.replace(tmpdir + '/', '')
-      zipped.write(dirname)
+      zipped.write(dirname, os.path.relpath(dirname, tmpdir))
       for filename in files:
-        zipped.write(os.path.join(dirname, filename))
+        path = os.path.join(dirname, filename)
+        zipped.write(path, os.path.relpath(path, tmpdir))
     zipped.close()
     zip_path.copy(dst=copy_target, overwrite=config.overwrite)
 
-- 
2.43.0


From 3549a643505818dc01475a33352e4f4e62af28b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:27 +0000
Subject: [PATCH 51/55] fix: package atom detectors under the name they are
 loaded by

AtomDetector.from_url loads the directory atom-detection-model of the
archive; save packaged the detector as 'packaged'.
---
 putting_dune/atom_detection/save_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/putting_dune/atom_detection/save_model.py b/putting_dune/atom_detection/save_model.py
index e969564..1214489 100644
--- a/putting_dune/atom_detection/save_model.py
+++ b/putting_dune/atom_detection/save_model.py
@@ -113,8 +113,9 @@ def save(config: Config):
   logging.info('Will save model at: %s', copy_target)
 
   with tempfile.TemporaryDirectory() as tmpdir:
-    save_path = epath.Path(tmpdir) / 'packaged'
-    zip_path = epath.Path(tmpdir) / 'packaged.zip'
+    # The name which AtomDetector.from_url expects.
+    save_path = epath.Path(tmpdir) / 'atom-detection-model'
+    zip_path = epath.Path(tmpdir) / 'atom-detection-model.zip'
     tf.saved_model.save(tf_module, save_path)
 
     zipped = zipfile.ZipFile(zip_path, 'w')
-- 
2.43.0


From 7b8526e4cb1cb4a106be1d25a715ba6b8c76df50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:27 +0000
Subject: [PATCH 52/55] fix: never take a partly fetched model for a whole one

Downloads which failed, or ended, after making the directory of the
model (or in the middle of unpacking it) were taken for the model by
later attempts. Archives are unpacked beside, and moved to their place.
---
 putting_dune/alignment.py            |  4 ++--
 putting_dune/atom_detector.py        |  4 ++--
 putting_dune/experiments/registry.py |  3 ++-
 putting_dune/io.py                   | 20 ++++++++++++++++++++
 4 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 580c3c8..552a7ef 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -27,6 +27,7 @@ import networkx as nx
 import numpy as np
 from putting_dune import constants
 from putting_dune import geometry
+from putting_dune import io as pd_io
 from putting_dune import microscope_utils
 import scipy.spatial
 import scipy.stats
@@ -488,10 +489,9 @@ class ImageAligner:
       workdir = epath.resource_path('putting_dune')
     model_path = epath.Path(workdir) / 'model_weights' / 'image-alignment-model'
     if not model_path.exists() or reload:
-      model_path.mkdir(parents=True, exist_ok=True)
       with path.open('rb') as model_zip_fp:
         with zipfile.ZipFile(model_zip_fp) as model_zip:
-          model_zip.extractall(model_path.parent)
+          pd_io.extract_directory(model_zip, model_path)
 
     return ImageAligner(model_path=model_path, **kwargs)
 
diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index d235bcc..72c66ea 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -25,6 +25,7 @@ from etils import epath
 import numpy as np
 import numpy.typing as npt
 from putting_dune import constants
+from putting_dune import io as pd_io
 from putting_dune import microscope_utils
 import tensorflow as tf
 
@@ -110,10 +111,9 @@ class AtomDetector:
     )
 
     if not model_path.exists():
-      model_path.mkdir(parents=True)
       with urllib.request.urlopen(url) as request:
         with zipfile.ZipFile(io.BytesIO(request.read())) as model_zip:
-          model_zip.extractall(model_path.parent)
+          pd_io.extract_directory(model_zip, model_path)
 
     return AtomDetector(model_path=model_path)
     # pylint: enable=unreachable
diff --git a/putting_dune/experiments/registry.py b/putting_dune/experiments/registry.py
index 9f7df26..c0ee8c8 100644
--- a/putting_dune/experiments/registry.py
+++ b/putting_dune/experiments/registry.py
@@ -30,6 +30,7 @@ from putting_dune import constants
 from putting_dune import feature_constructors
 from putting_dune import goals
 from putting_dune import graphene
+from putting_dune import io as pd_io
 from putting_dune.agents import agent_lib
 from putting_dune.agents import tf_eval_agent
 from putting_dune.experiments import experiments
@@ -102,7 +103,7 @@ class _TfAgentCreator:
 
       logging.info('Unzipping agent checkpoint...')
       with zipfile.ZipFile(zip_path_str, mode='r') as zf:
-        zf.extractall(model_weights_path)
+        pd_io.extract_directory(zf, model_path)
 
       # Delete the zip file.
       zip_path.unlink()
diff --git a/putting_dune/io.py b/putting_dune/io.py
index e5e531f..4c79798 100644
--- a/putting_dune/io.py
+++ b/putting_dune/io.py
@@ -15,8 +15,10 @@
 """IO Utilities."""
 import contextlib
 import os
+import tempfile
 import typing
 from typing import Iterable, Iterator, Literal, Type, TypeVar
+import zipfile
 
 from etils import epath
 from putting_dune import microscope_utils
@@ -28,6 +30,24 @@ ProtoModelT = TypeVar("ProtoModelT", bound=microscope_utils.ProtoModel)
 PathLike = epath.Path | str | os.PathLike[str]
 
 
+def extract_directory(archive: zipfile.ZipFile, path: epath.Path) -> None:
+  """Extracts the directory called as `path` is to `path`, all of it or nothing.
+
+  Args:
+    archive: The archive to extract from.
+    path: The path to extract to. If it exists, it is replaced.
+  """
+  path.parent.mkdir(parents=True, exist_ok=True)
+  with tempfile.TemporaryDirectory(dir=path.parent) as tmpdir:
+    archive.extractall(tmpdir)
+    extracted = os.path.join(tmpdir, path.name)
+    if not os.path.isdir(extracted):
+      raise FileNotFoundError(f"No directory {path.name} in the archive.")
+    if path.exists():
+      os.rename(path, os.path.join(tmpdir, "replaced"))
+    os.rename(extracted, path)
+
+
 @typing.overload
 def read_records(
     file: PathLike, record_type: Type[ProtoModelT]
-- 
2.43.0


From 3e9e409d52e37809749dd1f62ea9d7de465df513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:50 +0000
Subject: [PATCH 53/55] fix: create neighbor lists with the fields which they
 have

Training the graph aligner failed: lists of neighbors are made of more
fields by now, and hold an error instead of an overflow.
---
 putting_dune/graph_alignment/model.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/putting_dune/graph_alignment/model.py b/putting_dune/graph_alignment/model.py
index 85831c7..ebd05c9 100644
--- a/putting_dune/graph_alignment/model.py
+++ b/putting_dune/graph_alignment/model.py
@@ -215,22 +215,24 @@ def create_sparse_neighbor_list(
     initial_position: Starting configuration of the graph, array of shape
       (N_atoms, n_dim).
     update_fn: Update function, e.g., as returned by JaxMD's neighbor_list.
-    cell_list_capacity: Cell list capacity (only applies if using cell lists).
+    cell_list_capacity: Unused. Cell lists have to be allocated.
 
   Returns:
     A JaxMD NeighborList that can be updated. Must call update() at least once
     to initialize edges.
   """
   idx_matrix = jnp.zeros((2, capacity), jnp.int32)
-  overflow = jnp.zeros((), dtype=jnp.bool_)
+  # There is no cell list, which would need allocate: all pairs are considered.
   neighbor_list = partition.NeighborList(  # type: ignore
-      idx_matrix,
-      initial_position,
-      overflow,
-      cell_list_capacity,
-      capacity,
-      partition.Sparse,
-      update_fn,
+      idx=idx_matrix,
+      reference_position=initial_position,
+      error=partition.PartitionError(jnp.zeros((), jnp.uint8)),
+      cell_list_capacity=None,
+      max_occupancy=capacity,
+      format=partition.Sparse,
+      cell_size=None,
+      cell_list_fn=None,
+      update_fn=update_fn,
   )
   return neighbor_list
 
-- 
2.43.0


From 224c03866748df46b4a353e384cc9983d6bd3b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:50 +0000
Subject: [PATCH 54/55] fix: build the neighbor lists of the graph aligner

Updating a list builds it if points moved since the last time, which
they did not after creating it at their positions: the network only saw
edges from the first point to itself.
---
 putting_dune/graph_alignment/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/graph_alignment/model.py b/putting_dune/graph_alignment/model.py
index ebd05c9..335bdde 100644
--- a/putting_dune/graph_alignment/model.py
+++ b/putting_dune/graph_alignment/model.py
@@ -222,10 +222,11 @@ def create_sparse_neighbor_list(
     to initialize edges.
   """
   idx_matrix = jnp.zeros((2, capacity), jnp.int32)
+  # The first update only builds the list if points moved: as if all did.
   # There is no cell list, which would need allocate: all pairs are considered.
   neighbor_list = partition.NeighborList(  # type: ignore
       idx=idx_matrix,
-      reference_position=initial_position,
+      reference_position=initial_position + 0.5,
       error=partition.PartitionError(jnp.zeros((), jnp.uint8)),
       cell_list_capacity=None,
       max_occupancy=capacity,
-- 
2.43.0


From 50ff30637eaf4649b67659b4a26e1d76a0d1d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:01 +0000
Subject: [PATCH 55/55] fix: begin the next step with a reset after one which
 failed

---
 putting_dune/putting_dune_environment.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/putting_dune/putting_dune_environment.py b/putting_dune/putting_dune_environment.py
index 66be769..e75c5b2 100644
--- a/putting_dune/putting_dune_environment.py
+++ b/putting_dune/putting_dune_environment.py
@@ -85,8 +85,8 @@ class PuttingDuneEnvironment(dm_env.Environment):
       self._action_adapter.rng = self._rng
 
   def reset(self) -> dm_env.TimeStep:
-    # We won't need to reset immediately.
-    self._requires_reset = False
+    # A step can only follow once everything has been reset.
+    self._requires_reset = True
 
     # Generate a realistic doped graphene configuration.
     self.last_microscope_observation = self.sim.reset(
@@ -101,7 +101,7 @@ class PuttingDuneEnvironment(dm_env.Environment):
     )
     discount = constants.GAMMA_PER_SECOND**elapsed_seconds
 
-    return dm_env.TimeStep(
+    time_step = dm_env.TimeStep(
         step_type=dm_env.StepType.FIRST,
         reward=0.0,
         discount=discount,
@@ -109,6 +109,8 @@ class PuttingDuneEnvironment(dm_env.Environment):
             self.last_microscope_observation, self.goal
         ),
     )
+    self._requires_reset = False
+    return time_step
 
   def step(self, action: np.ndarray) -> dm_env.TimeStep:
     if self._requires_reset:
-- 
2.43.0

