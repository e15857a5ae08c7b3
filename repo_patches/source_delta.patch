From fc5370b1bbe7200526010a6c3ab61cab2578d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 01/81] fix: sampling a single transition with id-list features

numpy treats a one-element torch tensor as a scalar index, so the object array
of an id-list field returned a bare dict and sample_to_output crashed.
---
 reagent/replay_memory/circular_replay_buffer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index ce5fabd..ac89235 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -723,6 +723,9 @@ class ReplayBuffer(object):
         stack_indices = indices.unsqueeze(1) + torch.arange(-self._stack_size + 1, 1)
         # pyre-fixme[16]: `Tensor` has no attribute `__imod__`.
         stack_indices %= self._replay_capacity
+        if isinstance(self._store[key], np.ndarray):
+            # numpy would treat a one-element tensor as a scalar index
+            stack_indices = stack_indices.numpy()
         retval = self._store[key][stack_indices]
         return self._key_to_replay_elem[key].metadata.sample_to_output(retval)
 
-- 
2.43.0


From 048ba615c03615d14e8fc43dff8b1bc52c49bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 02/81] fix: checkpoint the replay buffer's validity
 bookkeeping

A restored buffer had an empty validity map, so it could not be sampled, and a
buffer without insertions silently restored nothing but the counter. Save the
private bookkeeping and id-list fields as well, and read every file of a
checkpoint before changing the buffer.
---
 .../replay_memory/circular_replay_buffer.py   | 91 ++++++++++++++-----
 1 file changed, 69 insertions(+), 22 deletions(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index ac89235..91c25d0 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -29,6 +29,7 @@ off-policy corrections.
 import abc
 import collections
 import gzip
+import io
 import logging
 import os
 import pickle
@@ -274,6 +275,14 @@ CHECKPOINT_DURATION = 4
 
 REQUIRED_KEYS = ["observation", "action", "reward", "terminal"]
 
+# Private bookkeeping without which a restored buffer can't be sampled or extended.
+CHECKPOINTED_PRIVATE_MEMBERS = [
+    "_is_index_valid",
+    "_num_valid_indices",
+    "_num_transitions_in_current_episode",
+    "_storage_types",
+]
+
 
 class ReplayBuffer(object):
     """A simple Replay Buffer.
@@ -370,6 +379,10 @@ class ReplayBuffer(object):
         self._storage_types: List[ReplayElement] = [
             make_replay_element(k, kwargs[k]) for k in REQUIRED_KEYS + self._extra_keys
         ]
+        self._initialize_storage()
+
+    def _initialize_storage(self):
+        """ Create storage and batch type for self._storage_types """
         self._key_to_replay_elem = {
             elem.name: elem for elem in self.get_storage_signature()
         }
@@ -772,14 +785,18 @@ class ReplayBuffer(object):
         """Return the dict of elements of the class for checkpointing.
         Returns:
           checkpointable_elements: dict containing all non private (starting with
-          _) members + all the arrays inside self._store.
+          _) members + the private bookkeeping in CHECKPOINTED_PRIVATE_MEMBERS
+          + all the arrays inside self._store.
         """
         checkpointable_elements = {}
         for member_name, member in self.__dict__.items():
             if member_name == "_store":
                 for array_name, array in self._store.items():
                     checkpointable_elements[STORE_FILENAME_PREFIX + array_name] = array
-            elif not member_name.startswith("_"):
+            elif (
+                not member_name.startswith("_")
+                or member_name in CHECKPOINTED_PRIVATE_MEMBERS
+            ):
                 checkpointable_elements[member_name] = member
         return checkpointable_elements
 
@@ -807,10 +824,12 @@ class ReplayBuffer(object):
                     # STORE_FILENAME_PREFIX indicates that the variable is contained in
                     # self._store.
                     if attr.startswith(STORE_FILENAME_PREFIX):
-                        array_name = attr[len(STORE_FILENAME_PREFIX) :]
-                        np.save(
-                            outfile, self._store[array_name].numpy(), allow_pickle=False
-                        )
+                        array = self._store[attr[len(STORE_FILENAME_PREFIX) :]]
+                        if isinstance(array, np.ndarray):
+                            # array of python objects, e.g. id lists
+                            pickle.dump(array, outfile)
+                        else:
+                            np.save(outfile, array.numpy(), allow_pickle=False)
                     # Some numpy arrays might not be part of storage
                     elif isinstance(self.__dict__[attr], np.ndarray):
                         np.save(outfile, self.__dict__[attr], allow_pickle=False)
@@ -839,25 +858,53 @@ class ReplayBuffer(object):
           NotFoundError: If not all expected files are found in directory.
         """
         # TODO: Load tensors from torch files.
-        save_elements = self._return_checkpointable_elements()
         # We will first make sure we have all the necessary files available to avoid
         # loading a partially-specified (i.e. corrupted) replay buffer.
-        for attr in save_elements:
+        storage_types = self._storage_types
+        if not self._initialized_buffer:
+            # a buffer without any insertion learns its fields from the checkpoint
+            storage_types = self._read_element(checkpoint_dir, "_storage_types", suffix)
+        attrs = [
+            *(
+                attr
+                for attr in self._return_checkpointable_elements()
+                if not attr.startswith(STORE_FILENAME_PREFIX)
+            ),
+            *(STORE_FILENAME_PREFIX + elem.name for elem in storage_types),
+        ]
+        for attr in attrs:
             filename = self._generate_filename(checkpoint_dir, attr, suffix)
             if not os.path.exists(filename):
                 raise FileNotFoundError(None, None, "Missing file: {}".format(filename))
         # If we've reached this point then we have verified that all expected files
-        # are available.
-        for attr in save_elements:
-            filename = self._generate_filename(checkpoint_dir, attr, suffix)
-            with open(filename, "rb") as f:
-                with gzip.GzipFile(fileobj=f) as infile:
-                    if attr.startswith(STORE_FILENAME_PREFIX):
-                        array_name = attr[len(STORE_FILENAME_PREFIX) :]
-                        self._store[array_name] = torch.from_numpy(
-                            np.load(infile, allow_pickle=False)
-                        )
-                    elif isinstance(self.__dict__[attr], np.ndarray):
-                        self.__dict__[attr] = np.load(infile, allow_pickle=False)
-                    else:
-                        self.__dict__[attr] = pickle.load(infile)
+        # are available. Read everything before changing anything.
+        values = {
+            attr: self._read_element(checkpoint_dir, attr, suffix) for attr in attrs
+        }
+        if not self._initialized_buffer and storage_types:
+            self._storage_types = storage_types
+            self._extra_keys = [
+                elem.name for elem in storage_types if elem.name not in REQUIRED_KEYS
+            ]
+            self._initialize_storage()
+        for attr, value in values.items():
+            if attr.startswith(STORE_FILENAME_PREFIX):
+                self._store[attr[len(STORE_FILENAME_PREFIX) :]] = value
+            else:
+                self.__dict__[attr] = value
+
+    def _read_element(self, checkpoint_dir, attr, suffix):
+        """ Reads the file of one checkpointed element """
+        filename = self._generate_filename(checkpoint_dir, attr, suffix)
+        if not os.path.exists(filename):
+            raise FileNotFoundError(None, None, "Missing file: {}".format(filename))
+        with open(filename, "rb") as f:
+            with gzip.GzipFile(fileobj=f) as infile:
+                content = infile.read()
+        # np.save starts its files with this magic string; the rest is pickled
+        if content.startswith(b"\x93NUMPY"):
+            array = np.load(io.BytesIO(content), allow_pickle=False)
+            if attr.startswith(STORE_FILENAME_PREFIX):
+                return torch.from_numpy(array)
+            return array
+        return pickle.loads(content)
-- 
2.43.0


From 8033323ac714bccdc997315b4cfb91ee2d297e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:11 +0000
Subject: [PATCH 03/81] fix: never return an invalid index when prioritized
 sampling runs out of attempts

---
 reagent/replay_memory/prioritized_replay_buffer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index 62c8a39..dff67eb 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -109,6 +109,13 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
                     # is not stratified.
                     index = self.sum_tree.sample()
                     allowed_attempts -= 1
+                if not self.is_valid_transition(index):
+                    raise RuntimeError(
+                        "Max sample attempts: Tried {} times but only sampled {}"
+                        " valid indices. Batch size is {}".format(
+                            self._max_sample_attempts, i, batch_size
+                        )
+                    )
                 indices[i] = index
         return torch.tensor(indices, dtype=torch.int64)
 
-- 
2.43.0


From ea5637a6d49a3578ad6bb8036515b9eb34e94be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:11 +0000
Subject: [PATCH 04/81] fix: prioritized sampling with the default batch size

sample_transition_batch() documents batch_size=None, which crashed in view().
---
 reagent/replay_memory/prioritized_replay_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index dff67eb..99cd85c 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -144,7 +144,7 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
             if element_name == "sampling_probabilities":
                 batch = torch.from_numpy(
                     self.get_priority(transition.indices.numpy().astype(np.int32))
-                ).view(batch_size, 1)
+                ).view(-1, 1)
             else:
                 batch = getattr(transition, element_name)
             batch_arrays.append(batch)
-- 
2.43.0


From 5c6448ebb359103e9cf3d0d03b87ee13bdb1c1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:11 +0000
Subject: [PATCH 05/81] fix: store the inserted priority so sampled batches do
 not return uninitialised memory

---
 reagent/replay_memory/prioritized_replay_buffer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index 99cd85c..7f68f0b 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -73,10 +73,9 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
         for element in self.get_add_args_signature():
             if element.name == "priority":
                 priority = kwargs[element.name]
-            else:
-                transition[element.name] = element.metadata.input_to_storage(
-                    kwargs[element.name]
-                )
+            transition[element.name] = element.metadata.input_to_storage(
+                kwargs[element.name]
+            )
 
         self.sum_tree.set(self.cursor(), priority)
         super(PrioritizedReplayBuffer, self)._add_transition(transition)
-- 
2.43.0


From a260cfb24533289398a47c94719b1499ed6656b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 06/81] fix: export every replay buffer transition exactly once

replay_buffer_to_pre_timeline_df sampled with replacement, so the exported data
repeated some transitions and lost others.
---
 reagent/replay_memory/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/replay_memory/utils.py b/reagent/replay_memory/utils.py
index dce70a3..fb3b195 100644
--- a/reagent/replay_memory/utils.py
+++ b/reagent/replay_memory/utils.py
@@ -26,8 +26,9 @@ def replay_buffer_to_pre_timeline_df(
     is_discrete_action: bool, replay_buffer: ReplayBuffer
 ) -> pd.DataFrame:
     """ Format needed for uploading dataset to Hive, and then run timeline. """
-    n = replay_buffer.size
-    batch = replay_buffer.sample_transition_batch(batch_size=n)
+    # every transition exactly once; random sampling would repeat some and lose others
+    batch = replay_buffer.sample_all_valid_transitions()
+    n = len(batch.indices)
 
     # actions is inconsistent between models, so let's infer them.
     possible_actions_mask = getattr(batch, "possible_actions_mask", None)
-- 
2.43.0


From 76c7589fb06059a36e868513c0c8bc28220cf82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:54 +0000
Subject: [PATCH 07/81] fix: end an episode after max_steps steps, not one
 later

run_episode and ReplayBufferDataset document max_steps as the limit after which
the environment is assumed terminal but took max_steps + 1 steps;
fill_replay_buffer compensated for it.
---
 reagent/gym/datasets/replay_buffer_dataset.py | 2 +-
 reagent/gym/runners/gymrunner.py              | 2 +-
 reagent/gym/utils.py                          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/reagent/gym/datasets/replay_buffer_dataset.py b/reagent/gym/datasets/replay_buffer_dataset.py
index 466bafe..6856f50 100644
--- a/reagent/gym/datasets/replay_buffer_dataset.py
+++ b/reagent/gym/datasets/replay_buffer_dataset.py
@@ -93,7 +93,7 @@ class ReplayBufferDataset(torch.utils.data.IterableDataset):
                 action, log_prob = self._agent.act(obs, possible_actions_mask)
                 next_obs, reward, terminal, _ = self._env.step(action)
                 next_possible_actions_mask = self._env.possible_actions_mask
-                if self._max_steps is not None and num_steps >= self._max_steps:
+                if self._max_steps is not None and num_steps + 1 >= self._max_steps:
                     terminal = True
 
                 # Only partially filled. Agent can fill in more fields.
diff --git a/reagent/gym/runners/gymrunner.py b/reagent/gym/runners/gymrunner.py
index 73a58f0..495e8ad 100644
--- a/reagent/gym/runners/gymrunner.py
+++ b/reagent/gym/runners/gymrunner.py
@@ -37,7 +37,7 @@ def run_episode(
         action, log_prob = agent.act(obs, possible_actions_mask)
         next_obs, reward, terminal, _ = env.step(action)
         next_possible_actions_mask = env.possible_actions_mask
-        if max_steps is not None and num_steps >= max_steps:
+        if max_steps is not None and num_steps + 1 >= max_steps:
             terminal = True
 
         # Only partially filled. Agent can fill in more fields.
diff --git a/reagent/gym/utils.py b/reagent/gym/utils.py
index 513b18a..ecfb8c4 100644
--- a/reagent/gym/utils.py
+++ b/reagent/gym/utils.py
@@ -55,7 +55,7 @@ def fill_replay_buffer(env, replay_buffer: ReplayBuffer, desired_size: int):
         mdp_id = 0
         while replay_buffer.size < desired_size:
             last_size = replay_buffer.size
-            max_steps = desired_size - replay_buffer.size - 1
+            max_steps = desired_size - replay_buffer.size
             if max_episode_steps is not None:
                 max_steps = min(max_episode_steps, max_steps)
             run_episode(env=env, agent=agent, mdp_id=mdp_id, max_steps=max_steps)
-- 
2.43.0


From 7a41b8ba9660762e268de5a233a7df0aa4bfa8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 08/81] fix: convert one-step episodes to policy gradient
 batches

---
 reagent/gym/preprocessors/trainer_preprocessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/gym/preprocessors/trainer_preprocessor.py b/reagent/gym/preprocessors/trainer_preprocessor.py
index 247242d..2b91cb3 100644
--- a/reagent/gym/preprocessors/trainer_preprocessor.py
+++ b/reagent/gym/preprocessors/trainer_preprocessor.py
@@ -454,7 +454,10 @@ class PolicyGradientInputMaker:
         return _stack([_stack_slate(slate) for slate in observation])
 
     def __call__(self, trajectory: Trajectory):
-        action = torch.from_numpy(np.stack(trajectory.action).squeeze())
+        action = np.stack(trajectory.action)
+        # squeeze everything but the step axis, which must survive 1-step episodes
+        squeezable = tuple(i for i in range(1, action.ndim) if action.shape[i] == 1)
+        action = torch.from_numpy(action.squeeze(axis=squeezable))
         if self.num_actions is not None:
             action = F.one_hot(action, self.num_actions).float()
             assert len(action.shape) == 2, f"{action.shape}"
-- 
2.43.0


From e00ac102552c69aa33d12a6185d68d06abb11664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 09/81] fix: epsilon-greedy sampling crashed; greedy
 log-probabilities were wrong

---
 .../gym/policies/samplers/discrete_sampler.py | 34 +++++++++----------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/reagent/gym/policies/samplers/discrete_sampler.py b/reagent/gym/policies/samplers/discrete_sampler.py
index ac895ec..f1de5bf 100644
--- a/reagent/gym/policies/samplers/discrete_sampler.py
+++ b/reagent/gym/policies/samplers/discrete_sampler.py
@@ -85,7 +85,7 @@ class GreedyActionSampler(Sampler):
         action = F.one_hot(raw_action, num_actions)
         assert action.shape == (batch_size, num_actions)
         return rlt.ActorOutput(
-            action=action, log_prob=torch.ones_like(raw_action, dtype=torch.float)
+            action=action, log_prob=torch.zeros_like(raw_action, dtype=torch.float)
         )
 
     # pyre-fixme[56]: Decorator `torch.no_grad(...)` could not be called, because
@@ -96,7 +96,7 @@ class GreedyActionSampler(Sampler):
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
         match = greedy_indices == action.argmax(-1)
         lp = torch.zeros(scores.shape[0]).float()
-        lp[match] = -float("inf")
+        lp[~match] = -float("inf")
         return lp
 
 
@@ -121,22 +121,24 @@ class EpsilonGreedyActionSampler(Sampler):
         assert minimum_epsilon <= epsilon_decay
         self.minimum_epsilon = minimum_epsilon
 
+    def _get_distribution(
+        self, scores: torch.Tensor
+    ) -> torch.distributions.Categorical:
+        # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
+        argmax = F.one_hot(scores.argmax(dim=1), scores.shape[1]).bool()
+        # impossible actions have score -inf, and must not be explored
+        possible = (scores > -float("inf")) | argmax
+        rand_prob = self.epsilon / possible.sum(dim=1, keepdim=True)
+        p = possible * rand_prob + argmax * (1 - self.epsilon)
+        return torch.distributions.Categorical(probs=p)
+
     def sample_action(self, scores: torch.Tensor) -> rlt.ActorOutput:
         assert scores.dim() == 2, (
             "scores dim is %d" % scores.dim()
         )  # batch_size x num_actions
         batch_size, num_actions = scores.shape
 
-        # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
-        argmax = F.one_hot(scores.argmax(dim=1), num_actions).bool()
-
-        rand_prob = self.epsilon / num_actions
-        p = torch.full_like(rand_prob, scores)
-
-        greedy_prob = 1 - self.epsilon + rand_prob
-        p[argmax] = greedy_prob
-
-        m = torch.distributions.Categorical(probs=p)
+        m = self._get_distribution(scores)
         raw_action = m.sample()
         action = F.one_hot(raw_action, num_actions)
         assert action.shape == (batch_size, num_actions)
@@ -145,13 +147,9 @@ class EpsilonGreedyActionSampler(Sampler):
         return rlt.ActorOutput(action=action, log_prob=log_prob)
 
     def log_prob(self, scores: torch.Tensor, action: torch.Tensor) -> torch.Tensor:
-        max_index = self.sample_action(scores).argmax(-1)
+        m = self._get_distribution(scores)
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
-        opt = max_index == action.argmax(-1)
-        n = len(scores)
-        lp = torch.ones(n) * self.epsilon / n
-        lp[opt] = 1 - self.epsilon + self.epsilon / n
-        return lp
+        return m.log_prob(action.argmax(-1))
 
     def update(self) -> None:
         self.epsilon *= self.epsilon_decay
-- 
2.43.0


From fc4c4654b2d1376c79ac6c1e2726423dd56131ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 10/81] fix: Gaussian sampler called methods the actor no
 longer has

---
 reagent/gym/policies/samplers/continuous_sampler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/reagent/gym/policies/samplers/continuous_sampler.py b/reagent/gym/policies/samplers/continuous_sampler.py
index 0775e39..9ce952f 100644
--- a/reagent/gym/policies/samplers/continuous_sampler.py
+++ b/reagent/gym/policies/samplers/continuous_sampler.py
@@ -15,7 +15,7 @@ class GaussianSampler(Sampler):
         # pyre-fixme[16]: `Tensor` has no attribute `exp`.
         action = torch.tanh(loc + r * scale_log.exp())
         # Since each dim are independent, log-prob is simply sum
-        log_prob = self.actor_network._log_prob(r, scale_log)
+        log_prob = self.actor_network._normal_log_prob(r, scale_log)
         squash_correction = self.actor_network._squash_correction(action)
         log_prob = torch.sum(log_prob - squash_correction, dim=1)
         return action, log_prob
@@ -36,7 +36,7 @@ class GaussianSampler(Sampler):
         # This is not getting exported; we can use it
         # pyre-fixme[16]: `Tensor` has no attribute `exp`.
         n = torch.distributions.Normal(loc, scale_log.exp())
-        raw_action = self.actor_network._atanh(squashed_action)
+        raw_action = torch.atanh(squashed_action)
         log_prob = n.log_prob(raw_action)
         squash_correction = self.actor_network._squash_correction(squashed_action)
         log_prob = torch.sum(log_prob - squash_correction, dim=1)
@@ -49,7 +49,6 @@ class GaussianSampler(Sampler):
         self, scores: GaussianSamplerScore, squashed_action: torch.Tensor
     ) -> torch.Tensor:
         self.actor_network.eval()
-        # pyre-fixme[20]: Argument `squashed_action` expected.
-        log_prob = self._log_prob(scores.loc, scores.scale_log)
+        log_prob = self._log_prob(scores.loc, scores.scale_log, squashed_action)
         self.actor_network.train()
         return log_prob
-- 
2.43.0


From f45ed65805fd397c752e2df5dc224634d32f1880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 11/81] fix: batch-constrained on-policy DQN read an undefined
 mask

---
 reagent/training/dqn_trainer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reagent/training/dqn_trainer.py b/reagent/training/dqn_trainer.py
index 8af4eda..1ba7899 100644
--- a/reagent/training/dqn_trainer.py
+++ b/reagent/training/dqn_trainer.py
@@ -222,11 +222,11 @@ class DQNTrainer(DQNTrainerBaseLightning):
         if self.maxq_learning:
             possible_actions_mask = training_batch.possible_actions_mask
 
-        if self.bcq:
-            action_on_policy = get_valid_actions_from_imitator(
-                self.bcq_imitator, training_batch.state, self.bcq_drop_threshold
-            )
-            possible_actions_mask *= action_on_policy
+            if self.bcq:
+                action_on_policy = get_valid_actions_from_imitator(
+                    self.bcq_imitator, training_batch.state, self.bcq_drop_threshold
+                )
+                possible_actions_mask *= action_on_policy
 
         # Do we ever use model_action_idxs computed below?
         model_action_idxs = self.get_max_q_values(
-- 
2.43.0


From 9098613a9ccc96011bff7ac2d7a8d8c638f8c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 12/81] fix: on-policy C51 ignored the reward of terminal steps

---
 reagent/training/c51_trainer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/reagent/training/c51_trainer.py b/reagent/training/c51_trainer.py
index 0305b2e..d7c170e 100644
--- a/reagent/training/c51_trainer.py
+++ b/reagent/training/c51_trainer.py
@@ -123,6 +123,13 @@ class C51Trainer(RLTrainerMixin, ReAgentLightningModule):
             next_dist = next_dist[range(rewards.shape[0]), next_action.reshape(-1)]
         else:
             next_dist = (next_dist * training_batch.next_action.unsqueeze(-1)).sum(1)
+            # There is no next action after a terminal step; the return is the reward
+            # with certainty, i.e., all of the mass is at the reward.
+            next_dist = torch.where(
+                not_terminal > 0,
+                next_dist,
+                torch.full_like(next_dist, 1.0 / self.num_atoms),
+            )
 
         # Build target distribution
         target_Q = rewards + discount_tensor * not_terminal * self.support
-- 
2.43.0


From 7b2ec34593419c69bcf347b78ff42119cbe9aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:15 +0000
Subject: [PATCH 13/81] fix: QRDQN optimizer order matches the order of its
 losses

---
 reagent/training/qrdqn_trainer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reagent/training/qrdqn_trainer.py b/reagent/training/qrdqn_trainer.py
index 99b38d3..caf5b7b 100644
--- a/reagent/training/qrdqn_trainer.py
+++ b/reagent/training/qrdqn_trainer.py
@@ -98,13 +98,13 @@ class QRDQNTrainer(DQNTrainerBaseLightning):
             source_params += list(self.q_network_cpe.parameters())
             # source_params += list(self.reward_network.parameters())
             optimizers.append(
-                self.q_network_cpe_optimizer.make_optimizer(
-                    self.q_network_cpe.parameters()
+                self.reward_network_optimizer.make_optimizer(
+                    self.reward_network.parameters()
                 )
             )
             optimizers.append(
-                self.reward_network_optimizer.make_optimizer(
-                    self.reward_network.parameters()
+                self.q_network_cpe_optimizer.make_optimizer(
+                    self.q_network_cpe.parameters()
                 )
             )
 
-- 
2.43.0


From 624b9bf25f9971bcd0d1396f16419e12beb95b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 14/81] fix: do not move target networks on steps that skip the
 update

---
 reagent/optimizer/soft_update.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reagent/optimizer/soft_update.py b/reagent/optimizer/soft_update.py
index e6819c6..8052e0b 100644
--- a/reagent/optimizer/soft_update.py
+++ b/reagent/optimizer/soft_update.py
@@ -46,6 +46,9 @@ class SoftUpdate(torch.optim.Optimizer):
         if closure is not None:
             with torch.enable_grad():
                 loss = closure()
+            if loss is None:
+                # The training step yielded None, i.e., no update was requested
+                return None
 
         for group in self.param_groups:
             params = group["params"]
-- 
2.43.0


From 98758c9d9b4c886587c9be149ff0b903cc7c527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 15/81] fix: delayed CRR updates yield one value per optimizer

---
 reagent/training/discrete_crr_trainer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/reagent/training/discrete_crr_trainer.py b/reagent/training/discrete_crr_trainer.py
index 26a4dab..574dee4 100644
--- a/reagent/training/discrete_crr_trainer.py
+++ b/reagent/training/discrete_crr_trainer.py
@@ -242,7 +242,8 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
         all_action_scores = all_q_values.detach()
 
         # Only update actor and target networks after a fixed number of Q updates
-        if batch_idx % self.delayed_policy_update == 0:
+        update_policy = batch_idx % self.delayed_policy_update == 0
+        if update_policy:
             # Note: action_dim (the length of each row of the actor_action
             # matrix obtained below) is assumed to be > 1.
             actor_actions = self.actor_network(state).action
@@ -280,8 +281,7 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
                 )
             yield actor_loss
         else:
-            # Yielding None prevents the actor and target networks from updating
-            yield None
+            # Yielding None prevents the actor network from updating
             yield None
 
         discount_tensor = torch.full_like(rewards, self.gamma)
@@ -316,6 +316,6 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
 
         # Use the soft update rule to update the target networks.
         # Note: this yield has to be the last one, since SoftUpdate is the last
-        # optimizer added in the configure_optimizers() function.
-        result = self.soft_update_result()
-        yield result
+        # optimizer added in the configure_optimizers() function. Yielding None
+        # prevents the target networks from updating.
+        yield self.soft_update_result() if update_policy else None
-- 
2.43.0


From efc5f4f4fcb238cbdbe7eaefeab49e4186d560c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:11 +0000
Subject: [PATCH 16/81] fix: SAC keeps its learned temperature in single
 precision

---
 reagent/training/sac_trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/sac_trainer.py b/reagent/training/sac_trainer.py
index d3ff892..2f13a3b 100644
--- a/reagent/training/sac_trainer.py
+++ b/reagent/training/sac_trainer.py
@@ -122,7 +122,7 @@ class SACTrainer(RLTrainerMixin, ReAgentLightningModule):
         if alpha_optimizer is not None:
             self.target_entropy = target_entropy
             self.log_alpha = torch.nn.Parameter(
-                torch.tensor([np.log(self.entropy_temperature)])
+                torch.tensor([np.log(self.entropy_temperature)], dtype=torch.float)
             )
 
         self.logged_action_uniform_prior = logged_action_uniform_prior
-- 
2.43.0


From 50c33c9dc77d7268a10d60e3cb1ac8514bc2a3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:43 +0000
Subject: [PATCH 17/81] fix: support learners with a single optimizer

---
 reagent/training/reagent_lightning_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/reagent_lightning_module.py b/reagent/training/reagent_lightning_module.py
index cf6b4df..6a14c5b 100644
--- a/reagent/training/reagent_lightning_module.py
+++ b/reagent/training/reagent_lightning_module.py
@@ -93,7 +93,7 @@ class ReAgentLightningModule(pl.LightningModule):
 
     # pyre-fixme[14]: `training_step` overrides method defined in `LightningModule`
     #  inconsistently.
-    def training_step(self, batch, batch_idx: int, optimizer_idx: int):
+    def training_step(self, batch, batch_idx: int, optimizer_idx: int = 0):
         if self._training_step_generator is None:
             if self._training_batch_type and isinstance(batch, dict):
                 batch = self._training_batch_type.from_dict(batch)
-- 
2.43.0


From ebdae81533666d7334b930376adc0cf78461fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 18/81] fix: a job that trains a DQN-type model can be resumed

---
 reagent/workflow/model_managers/discrete_dqn_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/workflow/model_managers/discrete_dqn_base.py b/reagent/workflow/model_managers/discrete_dqn_base.py
index 53f9d9b..1413f03 100644
--- a/reagent/workflow/model_managers/discrete_dqn_base.py
+++ b/reagent/workflow/model_managers/discrete_dqn_base.py
@@ -162,7 +162,7 @@ class DiscreteDQNBase(ModelManager):
         self.trainer.set_reporter(reporter)
         assert data_module
 
-        train_eval_lightning(
+        self._lightning_trainer = train_eval_lightning(
             train_dataset=train_dataset,
             eval_dataset=eval_dataset,
             trainer_module=self.trainer,
-- 
2.43.0


From cc91cc593874d7f01f373016799e8c8982b53710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 19/81] fix: a run interrupted after its last epoch counts as
 stopped

---
 reagent/training/reagent_lightning_module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/training/reagent_lightning_module.py b/reagent/training/reagent_lightning_module.py
index 6a14c5b..47e23f7 100644
--- a/reagent/training/reagent_lightning_module.py
+++ b/reagent/training/reagent_lightning_module.py
@@ -150,5 +150,7 @@ class StoppingEpochCallback(pl.Callback):
         assert isinstance(pl_module, ReAgentLightningModule)
         cleanly_stopped = pl_module._cleanly_stopped.item()
         logger.info(f"cleanly stopped: {cleanly_stopped}")
-        if cleanly_stopped:
+        # A run that was interrupted after its last epoch has nothing left to do
+        finished = trainer.current_epoch > pl_module._next_stopping_epoch.item()
+        if cleanly_stopped or finished:
             pl_module.increase_next_stopping_epochs(self.num_epochs)
-- 
2.43.0


From cb812a7eb1d0ff81c4217a9e93fde2ef5e3b10a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 20/81] fix: saving a trainer uses a private temporary
 directory

---
 reagent/workflow/model_managers/model_manager.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/reagent/workflow/model_managers/model_manager.py b/reagent/workflow/model_managers/model_manager.py
index 31b7250..39d024a 100644
--- a/reagent/workflow/model_managers/model_manager.py
+++ b/reagent/workflow/model_managers/model_manager.py
@@ -3,6 +3,8 @@
 import abc
 import dataclasses
 import logging
+import os
+import tempfile
 import time
 from typing import Dict, List, Optional, Tuple
 
@@ -321,10 +323,11 @@ class ModelManager(metaclass=RegistryMeta):
             # HACK: since lightning_trainer.save_checkpoint can only deal with
             # local file paths (not even file handlers), we save to local file
             # first, and then use PathManager
-            local_path = "/tmp/lightning_save_checkpoint_local_copy"
-            lightning_trainer.save_checkpoint(local_path)
-            with open(local_path, "rb") as local_f:
-                checkpoint_contents = local_f.read()
+            with tempfile.TemporaryDirectory() as local_dir:
+                local_path = os.path.join(local_dir, "checkpoint")
+                lightning_trainer.save_checkpoint(local_path)
+                with open(local_path, "rb") as local_f:
+                    checkpoint_contents = local_f.read()
             with PathManager.open(output_path, "wb") as output_f:
                 output_f.write(checkpoint_contents)
         else:
-- 
2.43.0


From dd06cfd65aedd04abd7df8225c5ec609cf42fa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 21/81] fix: policy-gradient learners name existing components
 for warm start

---
 reagent/training/ppo_trainer.py | 5 ++++-
 reagent/training/reinforce.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/reagent/training/ppo_trainer.py b/reagent/training/ppo_trainer.py
index 67a80cb..99ace7b 100644
--- a/reagent/training/ppo_trainer.py
+++ b/reagent/training/ppo_trainer.py
@@ -176,4 +176,7 @@ class PPOTrainer(Trainer):
         """
         The trainer should specify what members to save and load
         """
-        return ["scorer", "policy"]
+        components = ["scorer"]
+        if self.value_net is not None:
+            components.append("value_net")
+        return components
diff --git a/reagent/training/reinforce.py b/reagent/training/reinforce.py
index 3ba0ae2..632ebf6 100644
--- a/reagent/training/reinforce.py
+++ b/reagent/training/reinforce.py
@@ -117,4 +117,7 @@ class Reinforce(Trainer):
         """
         The trainer should specify what members to save and load
         """
-        return ["scorer", "actor"]
+        components = ["scorer"]
+        if self.value_net is not None:
+            components.append("value_net")
+        return components
-- 
2.43.0


From dc61eca6bd6b3ddc7a8225dc28abfc83868ab774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 22/81] fix: SAC uses the restored entropy temperature

---
 reagent/training/sac_trainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reagent/training/sac_trainer.py b/reagent/training/sac_trainer.py
index 2f13a3b..547f124 100644
--- a/reagent/training/sac_trainer.py
+++ b/reagent/training/sac_trainer.py
@@ -184,6 +184,10 @@ class SACTrainer(RLTrainerMixin, ReAgentLightningModule):
         IMPORTANT: the input action here is assumed to match the
         range of the output of the actor.
         """
+        if self.alpha_optimizer is not None:
+            # log_alpha may have been restored since the last step
+            self.entropy_temperature = self.log_alpha.detach().exp()
+
 
         assert isinstance(training_batch, rlt.PolicyNetworkInput)
 
-- 
2.43.0


From b0d67de44d576d7e17d2c2935a40167c36f0b374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:02 +0000
Subject: [PATCH 23/81] fix: Reinforce updates after the configured number of
 episodes

---
 reagent/training/reinforce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/reinforce.py b/reagent/training/reinforce.py
index 632ebf6..51b497d 100644
--- a/reagent/training/reinforce.py
+++ b/reagent/training/reinforce.py
@@ -50,7 +50,7 @@ class Reinforce(Trainer):
         else:
             self.value_net = None
             self.value_net_optimizer = None
-        self.step = 1
+        self.step = 0
         self.losses = []
 
     def update_model(self):
-- 
2.43.0


From 47904951994df95f24b97cadd3338ea940da0955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:02 +0000
Subject: [PATCH 24/81] fix: PPO clips the surrogate objective of every step

---
 reagent/training/ppo_trainer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/reagent/training/ppo_trainer.py b/reagent/training/ppo_trainer.py
index 99ace7b..47eccfd 100644
--- a/reagent/training/ppo_trainer.py
+++ b/reagent/training/ppo_trainer.py
@@ -157,15 +157,17 @@ class PPOTrainer(Trainer):
             target_propensity - trajectory.log_prob.detach()
         ).float()
 
+        # the clipped surrogate objective is pessimistic for every single step
+        advantages = offset_reinforcement.float()
         losses["ppo_loss"] = -torch.min(
-            offset_reinforcement.float() @ characteristic_eligibility,
-            offset_reinforcement.float()
-            @ torch.clamp(
+            advantages * characteristic_eligibility,
+            advantages
+            * torch.clamp(
                 characteristic_eligibility,
                 1 - self.ppo_epsilon,
                 1 + self.ppo_epsilon,
             ),
-        )
+        ).sum()
         if self.entropy_weight != 0:
             entropy = self.sampler.entropy(scores)
             # "-" bcs minimizing, not maximizing
-- 
2.43.0


From e428d1e19f6fe866118bea3574d48f39c0b3b0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:02 +0000
Subject: [PATCH 25/81] fix: normalising a single return gives no nan

---
 reagent/training/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/training/utils.py b/reagent/training/utils.py
index 62563c9..5e7ee61 100644
--- a/reagent/training/utils.py
+++ b/reagent/training/utils.py
@@ -32,7 +32,8 @@ def whiten(x: torch.Tensor, subtract_mean: bool) -> torch.Tensor:
     numer = x
     if subtract_mean:
         numer -= x.mean()
-    return numer / (x.std() + EPS)
+    # the unbiased deviation of a single element is undefined (nan)
+    return numer / (x.std(unbiased=x.numel() > 1) + EPS)
 
 
 def discounted_returns(rewards: torch.Tensor, gamma: float = 0) -> torch.Tensor:
-- 
2.43.0


From 682d63eddfb27d4a696f2e7c10cf779684aa4a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:22 +0000
Subject: [PATCH 26/81] fix: FrechetSort truncates each ranking, not the batch,
 to topk

---
 reagent/samplers/frechet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/samplers/frechet.py b/reagent/samplers/frechet.py
index 4f0a902..ecc8dd0 100644
--- a/reagent/samplers/frechet.py
+++ b/reagent/samplers/frechet.py
@@ -73,7 +73,7 @@ class FrechetSort(Sampler):
         log_prob = self.log_prob(scores, action)
         # Only truncate the action before returning
         if self.topk is not None:
-            action = action[: self.topk]
+            action = action[:, : self.topk]
         return rlt.ActorOutput(action, log_prob)
 
     def log_prob(self, scores: torch.Tensor, action) -> torch.Tensor:
-- 
2.43.0


From cd8a582d280faeb51a3b7d04e2a52f8eca7db03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:22 +0000
Subject: [PATCH 27/81] fix: encoder scores keep their batch and rank
 dimensions

---
 reagent/models/seq2slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/seq2slate.py b/reagent/models/seq2slate.py
index 7aea7a5..462e076 100644
--- a/reagent/models/seq2slate.py
+++ b/reagent/models/seq2slate.py
@@ -709,7 +709,7 @@ class Seq2SlateTransformerModel(nn.Module):
         # slate_encoder_output shape: batch_size, tgt_seq_len, dim_model
         slate_encoder_output = gather(encoder_output, tgt_out_idx - 2)
         # encoder_scores shape: batch_size, tgt_seq_len
-        encoder_scores = self.encoder_scorer(slate_encoder_output).squeeze()
+        encoder_scores = self.encoder_scorer(slate_encoder_output).squeeze(dim=2)
         return Seq2SlateTransformerOutput(
             ranked_per_symbol_probs=None,
             ranked_per_seq_probs=None,
-- 
2.43.0


From 25d07943f48dcf80e263a9f462c2617fcbc6b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 28/81] fix: a CEM planner may have fewer than ten candidates

---
 reagent/models/cem_planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/cem_planner.py b/reagent/models/cem_planner.py
index dafdb30..825530c 100644
--- a/reagent/models/cem_planner.py
+++ b/reagent/models/cem_planner.py
@@ -185,7 +185,7 @@ class CEMPlannerNetwork(nn.Module):
         acc_reward_vec = np.zeros(self.cem_pop_size)
         init_state = state.float_features
         for i in range(self.cem_pop_size):
-            if i % (self.cem_pop_size // 10) == 0:
+            if i % max(1, self.cem_pop_size // 10) == 0:
                 logger.debug(f"Simulating the {i}-th solution...")
             acc_reward_vec[i] = self.acc_rewards_of_one_solution(
                 init_state, solutions[i], i
-- 
2.43.0


From e14fd507cf5252b355d6834c470c2aee8b0cc8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 29/81] fix: a CEM solution over an ensemble is scored by its
 average trajectory

---
 reagent/models/cem_planner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/models/cem_planner.py b/reagent/models/cem_planner.py
index 825530c..dffe72f 100644
--- a/reagent/models/cem_planner.py
+++ b/reagent/models/cem_planner.py
@@ -187,8 +187,9 @@ class CEMPlannerNetwork(nn.Module):
         for i in range(self.cem_pop_size):
             if i % max(1, self.cem_pop_size // 10) == 0:
                 logger.debug(f"Simulating the {i}-th solution...")
-            acc_reward_vec[i] = self.acc_rewards_of_one_solution(
-                init_state, solutions[i], i
+            # a solution is as good as its trajectories are on average
+            acc_reward_vec[i] = np.mean(
+                self.acc_rewards_of_one_solution(init_state, solutions[i], i)
             )
         return acc_reward_vec
 
-- 
2.43.0


From b421bf402cac2b10862eea160aad4618f914e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 30/81] fix: ES workers reduce rewards within their own process
 group

---
 reagent/training/gradient_free/es_worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/gradient_free/es_worker.py b/reagent/training/gradient_free/es_worker.py
index 4176021..81e90ef 100644
--- a/reagent/training/gradient_free/es_worker.py
+++ b/reagent/training/gradient_free/es_worker.py
@@ -41,7 +41,7 @@ class EsWorker:
         logger.info("Pushing reward")
 
         # Sum the rewards across all machines
-        distributed.all_reduce(rewards, self.process_group)
+        distributed.all_reduce(rewards, group=self.process_group)
 
         # Divide the rewards by the number of machines.  We do this because
         # there is no "average" all_reduce operator.
-- 
2.43.0


From 15805f3f8d76a0c230cd32d3ddb3dbe36beee332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 31/81] fix: values of every metric are discounted

---
 reagent/evaluation/evaluation_data_page.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 41d88a0..0531443 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -514,7 +514,7 @@ class EvaluationDataPage(NamedTuple):
             if mdp_ids[x] != mdp_ids[x + 1]:
                 # Value = reward for new mdp_id
                 continue
-            values[x, 0] += values[x + 1, 0] * math.pow(
+            values[x] += values[x + 1] * math.pow(
                 gamma, float(sequence_numbers[x + 1, 0] - sequence_numbers[x, 0])
             )
 
-- 
2.43.0


From 3295d8ac48137d8feb9a87e26073053309527dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 32/81] fix: a metric in the reward's place brings its own
 logged-action predictions

---
 reagent/evaluation/evaluation_data_page.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 0531443..0bbf09f 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -598,17 +598,25 @@ class EvaluationDataPage(NamedTuple):
         assert self.model_metrics is not None, "metrics must not be none"
         assert self.model_metrics_values is not None, "metrics must not be none"
 
+        model_rewards = self.model_metrics[:, i * num_actions : (i + 1) * num_actions]
+        model_values = self.model_metrics_values[
+            :, i * num_actions : (i + 1) * num_actions
+        ]
         return self._replace(
             logged_rewards=self.logged_metrics[:, i : i + 1],
             logged_values=self.logged_metrics_values[:, i : i + 1],
-            model_rewards=self.model_metrics[
-                :, i * num_actions : (i + 1) * num_actions
-            ],
-            model_values=self.model_metrics_values[
-                :, i * num_actions : (i + 1) * num_actions
-            ],
+            model_rewards=model_rewards,
+            model_rewards_for_logged_action=torch.sum(
+                model_rewards * self.action_mask, dim=1, keepdim=True
+            ),
+            model_values=model_values,
+            model_values_for_logged_action=torch.sum(
+                model_values * self.action_mask, dim=1, keepdim=True
+            ),
             logged_metrics=None,
             logged_metrics_values=None,
             model_metrics=None,
             model_metrics_values=None,
+            model_metrics_for_logged_action=None,
+            model_metrics_values_for_logged_action=None,
         )
-- 
2.43.0


From 26d04faba1f825e5513dfcbca218f791d066f0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 33/81] fix: parametric metric predictions are laid out one
 block per metric

---
 reagent/evaluation/evaluation_data_page.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 0bbf09f..827325d 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -250,8 +250,17 @@ class EvaluationDataPage(NamedTuple):
         )
         model_rewards = model_rewards.reshape(possible_actions_mask.shape)
 
-        model_metrics = rewards_and_metric_rewards[:, 1:]
-        model_metrics = model_metrics.reshape(possible_actions_mask.shape[0], -1)
+        # one block of all actions per metric, as in discrete DQN
+        batch_size, num_metrics = (
+            possible_actions_mask.shape[0],
+            rewards_and_metric_rewards.shape[1] - 1,
+        )
+        model_metrics = (
+            rewards_and_metric_rewards[:, 1:]
+            .reshape(batch_size, max_num_actions, num_metrics)
+            .transpose(1, 2)
+            .reshape(batch_size, num_metrics * max_num_actions)
+        )
 
         model_values_for_logged_action = trainer.q_network(states, actions)
         model_rewards_and_metrics_for_logged_action = trainer.reward_network(
-- 
2.43.0


From e2d18528d41598617d0dc4979f0a8e3b50e441be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 34/81] fix: evaluating leaves the target network in evaluation
 mode only while it runs

---
 reagent/evaluation/evaluation_data_page.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 827325d..ce1d2a9 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -199,8 +199,10 @@ class EvaluationDataPage(NamedTuple):
         metrics: Optional[torch.Tensor] = None,
     ):
         old_q_train_state = trainer.q_network.training
+        old_q_target_train_state = trainer.q_network_target.training
         old_reward_train_state = trainer.reward_network.training
         trainer.q_network.train(False)
+        trainer.q_network_target.train(False)
         trainer.reward_network.train(False)
 
         tiled_state = states.float_features.repeat(1, max_num_actions).reshape(
@@ -288,6 +290,7 @@ class EvaluationDataPage(NamedTuple):
             model_metrics_values = model_values.repeat(1, num_metrics)
 
         trainer.q_network.train(old_q_train_state)
+        trainer.q_network_target.train(old_q_target_train_state)
         trainer.reward_network.train(old_reward_train_state)
 
         return cls(
@@ -331,11 +334,13 @@ class EvaluationDataPage(NamedTuple):
         metrics: Optional[torch.Tensor] = None,
     ):
         old_q_train_state = trainer.q_network.training
+        old_q_target_train_state = trainer.q_network_target.training
         # pyre-fixme[16]: `DQNTrainer` has no attribute `reward_network`.
         old_reward_train_state = trainer.reward_network.training
         # pyre-fixme[16]: `DQNTrainer` has no attribute `q_network_cpe`.
         old_q_cpe_train_state = trainer.q_network_cpe.training
         trainer.q_network.train(False)
+        trainer.q_network_target.train(False)
         trainer.reward_network.train(False)
         trainer.q_network_cpe.train(False)
 
@@ -435,6 +440,7 @@ class EvaluationDataPage(NamedTuple):
 
         trainer.q_network_cpe.train(old_q_cpe_train_state)
         trainer.q_network.train(old_q_train_state)
+        trainer.q_network_target.train(old_q_target_train_state)
         trainer.reward_network.train(old_reward_train_state)
 
         return cls(
-- 
2.43.0


From 63a3dbd0fd12cd61e72889fa2ca6869f02153b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 35/81] fix: estimators keep one-step data one-dimensional

---
 reagent/evaluation/doubly_robust_estimator.py            | 6 +++---
 reagent/evaluation/sequential_doubly_robust_estimator.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/reagent/evaluation/doubly_robust_estimator.py b/reagent/evaluation/doubly_robust_estimator.py
index ee64a97..5445c3e 100644
--- a/reagent/evaluation/doubly_robust_estimator.py
+++ b/reagent/evaluation/doubly_robust_estimator.py
@@ -267,7 +267,7 @@ class DoublyRobustEstimator:
 
         direct_method_score = float(torch.mean(direct_method_values))
         direct_method_std_error = bootstrapped_std_error_of_mean(
-            direct_method_values.squeeze(),
+            direct_method_values.squeeze(dim=1),
             sample_percent=hp.bootstrap_sample_percent,
             num_samples=hp.bootstrap_num_samples,
         )
@@ -289,7 +289,7 @@ class DoublyRobustEstimator:
 
         ips_score = float(torch.mean(ips))
         ips_score_std_error = bootstrapped_std_error_of_mean(
-            ips.squeeze(),
+            ips.squeeze(dim=1),
             sample_percent=hp.bootstrap_sample_percent,
             num_samples=hp.bootstrap_num_samples,
         )
@@ -302,7 +302,7 @@ class DoublyRobustEstimator:
 
         dr_score = float(torch.mean(doubly_robust))
         dr_score_std_error = bootstrapped_std_error_of_mean(
-            doubly_robust.squeeze(),
+            doubly_robust.squeeze(dim=1),
             sample_percent=hp.bootstrap_sample_percent,
             num_samples=hp.bootstrap_num_samples,
         )
diff --git a/reagent/evaluation/sequential_doubly_robust_estimator.py b/reagent/evaluation/sequential_doubly_robust_estimator.py
index fbeb07e..f4cd9ab 100644
--- a/reagent/evaluation/sequential_doubly_robust_estimator.py
+++ b/reagent/evaluation/sequential_doubly_robust_estimator.py
@@ -20,8 +20,8 @@ class SequentialDoublyRobustEstimator:
 
     def estimate(self, edp: EvaluationDataPage) -> CpeEstimate:
         # For details, visit https://arxiv.org/pdf/1511.03722.pdf
-        logged_rewards = edp.logged_rewards.squeeze()
-        logged_propensities = edp.logged_propensities.squeeze()
+        logged_rewards = edp.logged_rewards.squeeze(dim=1)
+        logged_propensities = edp.logged_propensities.squeeze(dim=1)
 
         num_examples = edp.logged_rewards.shape[0]
 
-- 
2.43.0


From d29683fdd2bcb8e161a423e057b8cb10f934c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 36/81] fix: MAGIC works on fewer than four trajectories

---
 .../weighted_sequential_doubly_robust_estimator.py   | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
index e16b9bc..32eee98 100644
--- a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
+++ b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
@@ -104,7 +104,8 @@ class WeightedSequentialDoublyRobustEstimator:
 
         j_step_returns = np.sum(j_step_return_trajectories, axis=1)
 
-        if len(j_step_returns) == 1:
+        # a single trajectory tells nothing about the variance of its returns
+        if len(j_step_returns) == 1 or num_trajectories == 1:
             weighted_doubly_robust = j_step_returns[0]
             weighted_doubly_robust_std_error = 0.0
         else:
@@ -159,9 +160,12 @@ class WeightedSequentialDoublyRobustEstimator:
 
             # Use bootstrapping to compute weighted_doubly_robust standard error
             bootstrapped_means = []
-            sample_size = int(
-                WeightedSequentialDoublyRobustEstimator.BOOTSTRAP_SAMPLE_PCT
-                * num_subsets
+            sample_size = max(
+                1,
+                int(
+                    WeightedSequentialDoublyRobustEstimator.BOOTSTRAP_SAMPLE_PCT
+                    * num_subsets
+                ),
             )
             for _ in range(
                 WeightedSequentialDoublyRobustEstimator.NUM_BOOTSTRAP_SAMPLES
-- 
2.43.0


From f2e754a8a4a083773b311e00d9c0f76b893852a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 37/81] fix: MAGIC's bias is an outer product

---
 .../evaluation/weighted_sequential_doubly_robust_estimator.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
index 32eee98..98fd355 100644
--- a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
+++ b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
@@ -225,7 +225,7 @@ class WeightedSequentialDoublyRobustEstimator:
         j_step_bias[where_higher] = j_step_returns[where_higher] - high_bound
 
         covariance = np.cov(j_step_return_trajectories)
-        error = covariance + j_step_bias.T * j_step_bias
+        error = covariance + np.outer(j_step_bias, j_step_bias)
 
         # minimize mse error
         constraint = {"type": "eq", "fun": lambda x: np.sum(x) - 1.0}
-- 
2.43.0


From 2749782839939e1992df746e6bb4f9267baac378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 38/81] fix: CPE scores only the metrics besides the reward

---
 reagent/training/dqn_trainer_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/training/dqn_trainer_base.py b/reagent/training/dqn_trainer_base.py
index 03a90c6..e41d184 100644
--- a/reagent/training/dqn_trainer_base.py
+++ b/reagent/training/dqn_trainer_base.py
@@ -168,7 +168,8 @@ class DQNTrainerBaseLightning(DQNTrainerMixin, RLTrainerMixin, ReAgentLightningM
             self._actions,
             self.rl_parameters.gamma,
             self.trainer,
-            metrics_to_score=self.metrics_to_score,
+            # the reward, which is last, is always scored
+            metrics_to_score=self.metrics_to_score[:-1],
         )
 
     def _calculate_cpes(
-- 
2.43.0


From f7305881d19585469b853d6489d1fdf98186e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 39/81] fix: the sequential OPE adapter keeps the last step of
 a trajectory

---
 reagent/evaluation/ope_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/ope_adapter.py b/reagent/evaluation/ope_adapter.py
index 0397fea..5fba9f1 100644
--- a/reagent/evaluation/ope_adapter.py
+++ b/reagent/evaluation/ope_adapter.py
@@ -184,7 +184,7 @@ class SequentialOPEstimatorAdapter:
                         state=State((traj, i + 1)),
                         reward=rewards[traj, i].item(),
                     )
-                    for i in range(horizon - 1)
+                    for i in range(horizon)
                     if actions[traj, i][torch.argmax(actions[traj, i]).item()] != 0.0
                 ]
             )
-- 
2.43.0


From 29eef624acd6353676a61dc73138fdbe8e1c20e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 40/81] fix: adapted evaluation data needs no gradients

---
 reagent/evaluation/ope_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/ope_adapter.py b/reagent/evaluation/ope_adapter.py
index 5fba9f1..f812867 100644
--- a/reagent/evaluation/ope_adapter.py
+++ b/reagent/evaluation/ope_adapter.py
@@ -166,7 +166,7 @@ class SequentialOPEstimatorAdapter:
             target_propensities,
             estimated_q_values,
         ) = (
-            torch.tensor(x, dtype=torch.double, device=device, requires_grad=True)
+            torch.tensor(x, dtype=torch.double, device=device)
             for x in eq_len
         )
 
-- 
2.43.0


From d59e8f59b84271863bf71862337fc34ec0694e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 41/81] fix: OPE MAGIC discounts the value that follows a step

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 8846090..31e8391 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -440,7 +440,7 @@ class MAGICEstimator(IPSEstimator):
         wdr = wdrs[:, -1].sum(0)
         next_vs = torch.zeros((n, horizon), device=self._device)
         next_vs[:, :-1] = vs[:, 1:]
-        gs = wdrs + ws * next_vs * discount
+        gs = wdrs + ws * next_vs * discount * input.gamma
         gs_normal = gs.sub(torch.mean(gs, 0))
         assert n > 1
         omiga = (n / (n - 1.0)) * torch.einsum("ij,ik->jk", gs_normal, gs_normal)
-- 
2.43.0


From e1e5d2d9c9d9cdadfa4a2adb23b8d00ffbb20ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 42/81] fix: the bandit direct method without a trained model
 predicts zeros

---
 reagent/ope/estimators/contextual_bandits_estimators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index 70a6441..e7eafa8 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -172,7 +172,8 @@ class DMEstimator(Estimator):
             )
         trainer = self._trainer
         if trainer is None or not trainer.is_trained:
-            return 0.0, torch.zeros(), torch.zeros()
+            n = len(action_space)
+            return 0.0, torch.zeros(n), torch.zeros(n)
         assert sample.item_feature is not None
         item_feature = sample.item_feature.flatten()
         features = []
-- 
2.43.0


From 94ee1d2f50629b7a1938c2a701bba2409467375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 43/81] fix: the self-normalised IPS estimate is divided by the
 average weight

---
 reagent/ope/estimators/contextual_bandits_estimators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index e7eafa8..57e54ea 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -343,16 +343,17 @@ class IPSEstimator(Estimator):
             tgt_vals.append(tgt_result)
             acc_weight.add(weight)
             gt_avg.add(sample.ground_truth_reward)
+        normalizer = acc_weight.average if self._weighted else 1.0
         (
             tgt_score_normalized,
             tgt_std_err,
             tgt_std_err_normalized,
-        ) = self._compute_metric_data(torch.tensor(tgt_vals), log_avg.average)
+        ) = self._compute_metric_data(
+            torch.tensor(tgt_vals) / normalizer, log_avg.average
+        )
         return EstimatorResult(
             log_reward=log_avg.average,
-            estimated_reward=tgt_avg.average
-            if not self._weighted
-            else tgt_avg.average / acc_weight.total,
+            estimated_reward=tgt_avg.average / normalizer,
             ground_truth_reward=gt_avg.average,
             estimated_weight=tgt_avg.count,
             estimated_reward_normalized=tgt_score_normalized,
-- 
2.43.0


From 3e8920154eb03177b2a1fc0fd77ff341fad93d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 44/81] fix: SwitchDR counts the direct method once

---
 reagent/ope/estimators/contextual_bandits_estimators.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index 57e54ea..802a30d 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -653,11 +653,9 @@ class SwitchDREstimator(SwitchEstimator):
         tgt_props: torch.Tensor,
     ) -> torch.Tensor:
         ips_scores = (weights * actions).sum(dim=1, keepdim=True)
-        dr = ips_scores * (logged_rewards - est_rewards_for_logged_action) + (
-            tgt_props * est_rewards
-        ).sum(dim=1, keepdim=True)
-        return dr * (ips_scores <= threshold).float() + (
-            est_rewards * tgt_props * (weights > threshold).float()
+        correction = ips_scores * (logged_rewards - est_rewards_for_logged_action)
+        return correction * (ips_scores <= threshold).float() + (
+            est_rewards * tgt_props
         ).sum(dim=1, keepdim=True)
 
     def __repr__(self):
-- 
2.43.0


From c64ed50ff6faf7c6385a559a55d0616ddca3bf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 45/81] fix: run_evaluation reads the experiments the Evaluator
 wrote

---
 reagent/ope/estimators/estimator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/reagent/ope/estimators/estimator.py b/reagent/ope/estimators/estimator.py
index f53db8a..d5efbac 100644
--- a/reagent/ope/estimators/estimator.py
+++ b/reagent/ope/estimators/estimator.py
@@ -198,19 +198,18 @@ def run_evaluation(
     logger.info(f"received filename {file_name}")
     try:
         with open(file_name, "rb") as fp:
-            estimators, inputs = pickle.load(fp)
+            experiments = pickle.load(fp)
     except Exception as err:
         return None
     results = {}
-    for estimator in estimators:
-        estimator_name = repr(estimator)
-        estimator_results = []
-        for input in inputs:
+    for estimators, input in experiments:
+        for estimator in estimators:
+            estimator_name = repr(estimator)
+            estimator_results = results.setdefault(estimator_name, [])
             try:
                 estimator_results.append(estimator.evaluate(input))
             except Exception as err:
                 logger.error(f"{estimator_name} error {err}")
-        results[repr(estimator)] = estimator_results
     return results
 
 
-- 
2.43.0


From 1abd41077eb3d2f9508229ded95be37d5d568861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 46/81] fix: EpsilonGreedyRLPolicy keeps its policy's action
 space

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 31e8391..2084abc 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -123,7 +123,7 @@ class EpsilonGreedyRLPolicy(RLPolicy):
 
     def __init__(self, policy: RLPolicy, epsilon: float = 0.0):
         assert policy is not None and 0.0 <= epsilon < 1.0
-        super().__init__(policy._device)
+        super().__init__(policy._action_space, policy._device)
         self._policy = policy
         self._exploitation_prob = 1.0 - epsilon
         self._exploration_prob = epsilon / len(policy.action_space)
-- 
2.43.0


From 8dd38d87a7d07d082f6089e3088e58274741f03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 47/81] fix: the value of a log under a value function is that
 of its first state

---
 reagent/ope/estimators/sequential_estimators.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 2084abc..479fffc 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -201,14 +201,8 @@ class RLEstimator(Estimator):
     ) -> float:
         avg = RunningAverage()
         for mdp in mdps:
-            discount = 1.0
-            r = 0.0
-            for t in mdp:
-                if t.last_state is None:
-                    break
-                r += discount * value_function(t.last_state)
-                discount *= gamma
-            avg.add(r)
+            if len(mdp) > 0 and mdp[0].last_state is not None:
+                avg.add(value_function(mdp[0].last_state))
         return avg.average
 
 
-- 
2.43.0


From 68c302055c28c6188f3f4f13840da3d7fc05b58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 48/81] fix: NeuralDualDICE trains for stochastic environments

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 479fffc..d8f6f94 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -742,7 +742,7 @@ class NeuralDualDICE(RLEstimator):
             if self.deterministic_env:
                 v_loss = self._compute_loss(input.gamma, sample, True)
             else:
-                v_loss = self._compute_loss(*sample)
+                v_loss = self._compute_loss(input.gamma, sample, False)
             # Populate value gradients and optimize
             v_optim.zero_grad()
             v_loss.backward()
-- 
2.43.0


From 0d8615a8cd6c31d3f6eb2a8dca929694619ac705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 49/81] fix: Values forget what was derived from replaced
 values

---
 reagent/ope/estimators/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/ope/estimators/types.py b/reagent/ope/estimators/types.py
index dbd7b85..7efc675 100644
--- a/reagent/ope/estimators/types.py
+++ b/reagent/ope/estimators/types.py
@@ -315,6 +315,7 @@ class Values(Objects[KeyType, float]):
                     copy._values[copy._key_to_index[k]] = v
         else:
             raise TypeError(f"Unsupported values type {type(values)}")
+        copy._reset()
         return copy
 
     def _normalize(self):
-- 
2.43.0


From f97f123c2c80ed249b88c001d943c48009cabf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 50/81] fix: Values.sort honours the order asked for

---
 reagent/ope/estimators/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/types.py b/reagent/ope/estimators/types.py
index 7efc675..4c0d8e4 100644
--- a/reagent/ope/estimators/types.py
+++ b/reagent/ope/estimators/types.py
@@ -242,6 +242,7 @@ class Values(Objects[KeyType, float]):
         self._probabilities = None
         self._is_normalized = False
         self._sorted = None
+        self._sorted_descending = True
 
     def __getitem__(self, key: KeyType) -> float:
         return super().__getitem__(key).item()
@@ -264,7 +265,8 @@ class Values(Objects[KeyType, float]):
             Tuple of sorted indices and values
         """
         # pyre-fixme[16]: `Values` has no attribute `_sorted`.
-        if self._sorted is None:
+        if self._sorted is None or self._sorted_descending != descending:
+            self._sorted_descending = descending
             # pyre-fixme[16]: `Values` has no attribute `_values`.
             rs, ids = torch.sort(self._values, descending=descending)
             if self._index_to_key is not None:
-- 
2.43.0


From 8ff055520bbbcd0f747953e66c607af254aa92b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 51/81] fix: a loaded TabularPolicy explores as the saved one

---
 reagent/ope/trainers/rl_tabular_trainers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index dbd6acc..3af631e 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -68,6 +68,10 @@ class TabularPolicy(RLPolicy):
         except Exception:
             return False
         else:
+            as_size = len(self._action_space)
+            self._exploitation_prob = 1.0 - self._epsilon
+            self._exploration_prob = self._epsilon / as_size
+            self._uniform_probs = as_size * [1.0 / as_size]
             return True
 
 
-- 
2.43.0


From c2abaca4c6d6d57682873d85ec5f75a07bdc6dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 52/81] fix: tabular action values use the next state's value

---
 reagent/ope/trainers/rl_tabular_trainers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index 3af631e..3649a42 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -92,8 +92,9 @@ class TabularValueFunction(ValueFunction):
     def state_action_value(self, state: State, action: Action) -> float:
         value = 0.0
         sr_dist = self._model.next_state_reward_dist(state, action)
-        for _, rp in sr_dist.items():
-            value += rp.prob * (rp.reward + self._gamma * self.state_value(state))
+        for s, rp in sr_dist.items():
+            next_value = 0.0 if s is None or s.is_terminal else self.state_value(s)
+            value += rp.prob * (rp.reward + self._gamma * next_value)
         return value
 
     def state_value(self, state: State) -> float:
-- 
2.43.0


From 0aaee7ade804c7d34c27c9e055a3dbb645e2f57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 53/81] fix: first-visit Monte Carlo averages the first visit's
 return

---
 reagent/ope/trainers/rl_tabular_trainers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index 3649a42..34c38c7 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -267,7 +267,7 @@ class MonteCarloValueFunction(TabularValueFunction):
                         continue
                     g = self._gamma * g + t.reward
                     counts = state_counts[t.last_state]
-                    if counts > 1:
+                    if counts == 1:
                         self._update_state_value(t.last_state, g)
                     counts -= 1
                     if counts == 0:
@@ -339,7 +339,7 @@ class MonteCarloTrainer(object):
                         g = gamma * g + t.reward
                         key = (t.last_state, t.action)
                         vc = vcounts[key]
-                        if vc > 1:
+                        if vc == 1:
                             self._update_state_value(
                                 value_counts, t.last_state, t.action, g
                             )
-- 
2.43.0


From 678d90a6c87871b8dd98fbb0558236a0e78834f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 54/81] fix: an n-step reward never reads slots that were not
 written

---
 reagent/replay_memory/circular_replay_buffer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index 91c25d0..52c2abc 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -725,8 +725,9 @@ class ReplayBuffer(object):
     ):
         # default behavior is to sum up multi_step reward
         masks = torch.arange(self._update_horizon) < steps.unsqueeze(1)
-        rewards = self._store["reward"][multistep_indices] * self._decays * masks
-        return rewards.sum(dim=1)
+        rewards = self._store["reward"][multistep_indices] * self._decays
+        # slots outside the mask may never have been written to
+        return rewards.masked_fill(~masks, 0).sum(dim=1)
 
     def _get_stack_for_indices(self, key: str, indices: torch.Tensor) -> torch.Tensor:
         """ Get stack of transition data. """
-- 
2.43.0


From 118798c3e44c7016767e6cd038608ea9bca9b7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 55/81] fix: the served parametric policy passes on which
 features are present

---
 reagent/gym/policies/scorers/discrete_scorer.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/reagent/gym/policies/scorers/discrete_scorer.py b/reagent/gym/policies/scorers/discrete_scorer.py
index 3e461ab..127adc9 100644
--- a/reagent/gym/policies/scorers/discrete_scorer.py
+++ b/reagent/gym/policies/scorers/discrete_scorer.py
@@ -93,17 +93,15 @@ def parametric_dqn_serving_scorer(
 ) -> Scorer:
     @torch.no_grad()
     def score(value_presence: Tuple[torch.Tensor, torch.Tensor]) -> torch.Tensor:
-        obs = value_presence[0]
+        obs, presence = value_presence
         tiled_state, possible_actions = get_parametric_input(
             max_num_actions, rlt.FeatureData(obs)
         )
         tiled_state_tensor = tiled_state.float_features
+        tiled_presence = presence.repeat_interleave(repeats=max_num_actions, dim=0)
         possible_actions_tensor = possible_actions.float_features
         action_names, q_values = q_network(
-            state_with_presence=(
-                tiled_state_tensor,
-                torch.ones_like(tiled_state_tensor),
-            ),
+            state_with_presence=(tiled_state_tensor, tiled_presence),
             action_with_presence=(
                 possible_actions_tensor,
                 torch.ones_like(possible_actions_tensor),
-- 
2.43.0


From b06625ff67d87db6428c8b2f9a3bdd7c23d3bf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 56/81] fix: ranking actors can be served

---
 reagent/net_builder/continuous_actor_net_builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/net_builder/continuous_actor_net_builder.py b/reagent/net_builder/continuous_actor_net_builder.py
index 49c72b0..02b2dee 100644
--- a/reagent/net_builder/continuous_actor_net_builder.py
+++ b/reagent/net_builder/continuous_actor_net_builder.py
@@ -21,7 +21,10 @@ if IS_FB_ENVIRONMENT:
         FbRankingActorPredictorWrapper as RankingActorPredictorWrapper,
     )
 else:
-    from reagent.prediction.predictor_wrapper import ActorPredictorWrapper
+    from reagent.prediction.predictor_wrapper import (
+        ActorPredictorWrapper,
+        RankingActorPredictorWrapper,
+    )
 
 
 class ContinuousActorNetBuilder(metaclass=RegistryMeta):
-- 
2.43.0


From b91368b3ca9c1dd99677ff9c5e46c13bff89513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 57/81] fix: skipping Box-Cox leaves the values alone

---
 reagent/preprocessing/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/preprocessing/normalization.py b/reagent/preprocessing/normalization.py
index cb1c07c..9223e72 100644
--- a/reagent/preprocessing/normalization.py
+++ b/reagent/preprocessing/normalization.py
@@ -93,7 +93,7 @@ def identify_parameter(
                 k2_original, p_original, k2_boxcox, p_boxcox
             )
         )
-        if lambda_ < 0.9 or lambda_ > 1.1:
+        if not skip_box_cox and (lambda_ < 0.9 or lambda_ > 1.1):
             # Lambda is far enough from 1.0 to be worth doing boxcox
             if k2_original > k2_boxcox * 10 and k2_boxcox <= quantile_k2_threshold:
                 # The boxcox output is significantly more normally distributed
-- 
2.43.0


From 5d3e8991e0835d446ea0b2eb519c0856461a59aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 58/81] fix: features of type CLIP_LOG can be preprocessed

---
 reagent/preprocessing/preprocessor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reagent/preprocessing/preprocessor.py b/reagent/preprocessing/preprocessor.py
index f8d3b4f..b1c23b3 100644
--- a/reagent/preprocessing/preprocessor.py
+++ b/reagent/preprocessing/preprocessor.py
@@ -214,6 +214,11 @@ class Preprocessor(Module):
         # ONNX doesn't support != yet
         return self.one_tensor - (input == self.zero_tensor).float()
 
+    def _create_parameters_CLIP_LOG(
+        self, begin_index: int, norm_params: List[NormalizationParameters]
+    ):
+        pass
+
     def _preprocess_CLIP_LOG(
         self,
         begin_index: int,
-- 
2.43.0


From affd25092da5d87af16e5c8325766743e1267833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 59/81] fix: the output check covers CLIP_LOG features

---
 reagent/preprocessing/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/preprocessing/preprocessor.py b/reagent/preprocessing/preprocessor.py
index b1c23b3..31d0e62 100644
--- a/reagent/preprocessing/preprocessor.py
+++ b/reagent/preprocessing/preprocessor.py
@@ -583,7 +583,7 @@ class Preprocessor(Module):
         feature_type = norm_params[0].feature_type
         min_value, max_value = batch.min(), batch.max()
 
-        if feature_type in ("BOXCOX", "CONTINUOUS", "DO_NOT_PREPROCESS"):
+        if feature_type in ("BOXCOX", "CONTINUOUS", "DO_NOT_PREPROCESS", "CLIP_LOG"):
             # Continuous features may be in range (-inf, inf)
             pass
         elif max_value.item() > MAX_FEATURE_VALUE:
-- 
2.43.0


From 5d99724e8f950f7e7fff197e29d663e09eba7f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 60/81] fix: embedded lists are concatenated in the declared
 order

---
 reagent/models/embedding_bag_concat.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/reagent/models/embedding_bag_concat.py b/reagent/models/embedding_bag_concat.py
index bfb1a8c..52901e2 100644
--- a/reagent/models/embedding_bag_concat.py
+++ b/reagent/models/embedding_bag_concat.py
@@ -78,7 +78,10 @@ class EmbeddingBagConcat(ModelBase):
         # id_list is (offset, value); sum pooling
         id_list_embeddings = [
             self.embedding_bags[self.feat2table[feature_name]](input=v[1], offsets=v[0])
-            for feature_name, v in state.id_list_features.items()
+            for feature_name, v in (
+                (name, state.id_list_features[name])
+                for name in self._id_list_feature_names
+            )
         ]
 
         # id_score_list is (offset, key, value); weighted sum pooling
@@ -86,7 +89,10 @@ class EmbeddingBagConcat(ModelBase):
             self.embedding_bags[self.feat2table[feature_name]](
                 input=v[1], offsets=v[0], per_sample_weights=v[2]
             )
-            for feature_name, v in state.id_score_list_features.items()
+            for feature_name, v in (
+                (name, state.id_score_list_features[name])
+                for name in self._id_score_list_feature_names
+            )
         ]
         return torch.cat(
             id_list_embeddings + id_score_list_embeddings + [state.float_features],
-- 
2.43.0


From 5fa4aa94756827f3e08567234ae1b5662f2fd785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 61/81] fix: ranking evaluation reports its measures without
 CPE too

---
 .../ranking_policy_gradient_evaluator.py       | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/reagent/evaluation/ranking_policy_gradient_evaluator.py b/reagent/evaluation/ranking_policy_gradient_evaluator.py
index 87e2b27..9af7f2e 100644
--- a/reagent/evaluation/ranking_policy_gradient_evaluator.py
+++ b/reagent/evaluation/ranking_policy_gradient_evaluator.py
@@ -90,6 +90,15 @@ class RankingPolicyGradientEvaluator:
 
         seq2slate_net.train(seq2slate_net_prev_mode)
 
+        # pyre-fixme[16]: `RankingPolicyGradientEvaluator` has no attribute
+        #  `notify_observers`.
+        self.notify_observers(
+            eval_baseline_loss=eval_baseline_loss,
+            eval_advantages=eval_advantage,
+            logged_slate_rank_probs=logged_slate_rank_prob,
+            ranked_slate_rank_probs=ranked_slate_rank_prob,
+        )
+
         if not self.calc_cpe:
             return
 
@@ -116,15 +125,6 @@ class RankingPolicyGradientEvaluator:
         else:
             self.eval_data_pages_ng = self.eval_data_pages_ng.append(edp_ng)
 
-        # pyre-fixme[16]: `RankingPolicyGradientEvaluator` has no attribute
-        #  `notify_observers`.
-        self.notify_observers(
-            eval_baseline_loss=eval_baseline_loss,
-            eval_advantages=eval_advantage,
-            logged_slate_rank_probs=logged_slate_rank_prob,
-            ranked_slate_rank_probs=ranked_slate_rank_prob,
-        )
-
     @torch.no_grad()
     def evaluate_post_training(self):
         self.notify_observers(
-- 
2.43.0


From 4f83a4d5accf39b32914a8096d5d8e0d9865fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 62/81] fix: losses can be written to an active summary writer

---
 reagent/training/loss_reporter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/training/loss_reporter.py b/reagent/training/loss_reporter.py
index 458eb32..15306af 100644
--- a/reagent/training/loss_reporter.py
+++ b/reagent/training/loss_reporter.py
@@ -345,7 +345,9 @@ class LossReporter(object):
             ("Training/reward_loss", self.get_recent_reward_loss()),
             ("Training/imitator_loss", self.get_recent_imitator_loss()),
         ]:
-            SummaryWriterContext.add_scalar(name, none_to_zero(value), epoch)
+            SummaryWriterContext.add_scalar(
+                name, none_to_zero(value), global_step=epoch
+            )
 
     @staticmethod
     def calculate_recent_window_average(arr, window_size, num_entries):
-- 
2.43.0


From e67487f524622619fa0714d5911945b54d5aceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 63/81] fix: the summary writer of a single TensorBoard logger
 is found

---
 reagent/training/reagent_lightning_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/training/reagent_lightning_module.py b/reagent/training/reagent_lightning_module.py
index 47e23f7..c14e9c8 100644
--- a/reagent/training/reagent_lightning_module.py
+++ b/reagent/training/reagent_lightning_module.py
@@ -86,8 +86,8 @@ class ReAgentLightningModule(pl.LightningModule):
                 if isinstance(logger, pl.loggers.tensorboard.TensorBoardLogger):
                     self._summary_writer = logger.experiment
                     break
-        elif isinstance(logger, pl.loggers.tensorboard.TensorBoardLogger):
-            self._summary_writer = logger.experiment
+        elif isinstance(self.logger, pl.loggers.tensorboard.TensorBoardLogger):
+            self._summary_writer = self.logger.experiment
 
         return self._summary_writer
 
-- 
2.43.0


From 05b94883f3956c2446d76d7599b96f13664e1bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 64/81] fix: logged estimates show their own errors and raw
 values

---
 reagent/evaluation/cpe.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/reagent/evaluation/cpe.py b/reagent/evaluation/cpe.py
index 2038349..94020e1 100644
--- a/reagent/evaluation/cpe.py
+++ b/reagent/evaluation/cpe.py
@@ -45,7 +45,7 @@ class CpeEstimateSet(NamedTuple):
         self.check_estimates_exist()
 
         logger.info(
-            "Reward Inverse Propensity Score : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Reward Inverse Propensity Score : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.inverse_propensity.normalized,
                 self.inverse_propensity.normalized_std_error,
                 self.inverse_propensity.raw,
@@ -54,7 +54,7 @@ class CpeEstimateSet(NamedTuple):
         )
 
         logger.info(
-            "Reward Direct Method : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Reward Direct Method : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.direct_method.normalized,
                 self.direct_method.normalized_std_error,
                 self.direct_method.raw,
@@ -63,7 +63,7 @@ class CpeEstimateSet(NamedTuple):
         )
 
         logger.info(
-            "Reward Doubly Robust P.E. : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Reward Doubly Robust P.E. : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.doubly_robust.normalized,
                 self.doubly_robust.normalized_std_error,
                 self.doubly_robust.raw,
@@ -72,7 +72,7 @@ class CpeEstimateSet(NamedTuple):
         )
 
         logger.info(
-            "Value Weighted Doubly Robust P.E. : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Value Weighted Doubly Robust P.E. : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.weighted_doubly_robust.normalized,
                 self.weighted_doubly_robust.normalized_std_error,
                 self.weighted_doubly_robust.raw,
@@ -80,7 +80,7 @@ class CpeEstimateSet(NamedTuple):
             )
         )
         logger.info(
-            "Value Sequential Doubly Robust P.E. : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Value Sequential Doubly Robust P.E. : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.sequential_doubly_robust.normalized,
                 self.sequential_doubly_robust.normalized_std_error,
                 self.sequential_doubly_robust.raw,
@@ -88,7 +88,7 @@ class CpeEstimateSet(NamedTuple):
             )
         )
         logger.info(
-            "Value Magic Doubly Robust P.E. : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Value Magic Doubly Robust P.E. : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.magic.normalized,
                 self.magic.normalized_std_error,
                 self.magic.raw,
-- 
2.43.0


From ca72e40b07e4494b64748bd314f7aa6f794355f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 65/81] fix: a chosen component counts even if it is falsy

---
 reagent/core/tagged_union.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/core/tagged_union.py b/reagent/core/tagged_union.py
index 38b53b2..909af29 100644
--- a/reagent/core/tagged_union.py
+++ b/reagent/core/tagged_union.py
@@ -43,7 +43,9 @@ else:
         @property
         def value(self):
             selected_fields = [
-                field.name for field in fields(self) if getattr(self, field.name, None)
+                field.name
+                for field in fields(self)
+                if getattr(self, field.name, None) is not None
             ]
             assert (
                 len(selected_fields) == 1
-- 
2.43.0


From 51842951acb7e02f05f1b8bda34c75f07ae5eb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 66/81] fix: adjacent sample ranges never share an mdp

---
 reagent/workflow/data_fetcher.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reagent/workflow/data_fetcher.py b/reagent/workflow/data_fetcher.py
index 306a5c8..b4ae1df 100644
--- a/reagent/workflow/data_fetcher.py
+++ b/reagent/workflow/data_fetcher.py
@@ -83,11 +83,12 @@ def hash_mdp_id_and_subsample(df, sample_range: Optional[Tuple[float, float]] =
     # pyre-fixme[16]: Module `functions` has no attribute `col`.
     df = df.withColumn("mdp_id", crc32(col("mdp_id")))
     if sample_range:
-        lower_bound = sample_range[0] / 100.0 * MAX_UINT32
-        upper_bound = sample_range[1] / 100.0 * MAX_UINT32
+        # half-open, so that adjacent sample ranges never share an mdp
+        lower_bound = sample_range[0] / 100.0 * (MAX_UINT32 + 1)
+        upper_bound = sample_range[1] / 100.0 * (MAX_UINT32 + 1)
         # pyre-fixme[16]: Module `functions` has no attribute `col`.
         # pyre-fixme[16]: Module `functions` has no attribute `col`.
-        df = df.filter((lower_bound <= col("mdp_id")) & (col("mdp_id") <= upper_bound))
+        df = df.filter((lower_bound <= col("mdp_id")) & (col("mdp_id") < upper_bound))
     return df
 
 
-- 
2.43.0


From 843ac61b2296c0e2213fecfa29881731d676ef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 67/81] fix: infer the columns of queried data from the whole
 table

---
 reagent/workflow/data_fetcher.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/reagent/workflow/data_fetcher.py b/reagent/workflow/data_fetcher.py
index b4ae1df..1e6a2a5 100644
--- a/reagent/workflow/data_fetcher.py
+++ b/reagent/workflow/data_fetcher.py
@@ -450,20 +450,22 @@ def query_data(
         multi_steps=multi_steps,
         gamma=gamma,
     )
+    # infer the columns from the whole table, so that they are the same for
+    # every sample of it
+    states = infer_states_names(df, multi_steps)
+    metrics = infer_metrics_names(df, multi_steps)
+    if not discrete_action:
+        actions = infer_action_names(df, multi_steps)
     df = hash_mdp_id_and_subsample(df, sample_range=sample_range)
     df = misc_column_preprocessing(df, multi_steps=multi_steps)
     df = state_and_metrics_sparse2dense(
-        df,
-        states=infer_states_names(df, multi_steps),
-        metrics=infer_metrics_names(df, multi_steps),
-        multi_steps=multi_steps,
+        df, states=states, metrics=metrics, multi_steps=multi_steps
     )
     if discrete_action:
         assert include_possible_actions
         assert actions is not None, "in discrete case, actions must be given."
         df = discrete_action_preprocessing(df, actions=actions, multi_steps=multi_steps)
     else:
-        actions = infer_action_names(df, multi_steps)
         df = parametric_action_preprocessing(
             df,
             actions=actions,
-- 
2.43.0


From 07e4e2786bac6e7653f2f84894ad0afa77da780c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 68/81] fix: save each serving module, and to a file of its own

---
 reagent/workflow/model_managers/model_manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reagent/workflow/model_managers/model_manager.py b/reagent/workflow/model_managers/model_manager.py
index 39d024a..e5febf5 100644
--- a/reagent/workflow/model_managers/model_manager.py
+++ b/reagent/workflow/model_managers/model_manager.py
@@ -6,6 +6,7 @@ import logging
 import os
 import tempfile
 import time
+import uuid
 from typing import Dict, List, Optional, Tuple
 
 import pytorch_lightning as pl
@@ -273,8 +274,10 @@ class ModelManager(metaclass=RegistryMeta):
         output_paths = {}
         for module_name, serving_module in self.build_serving_modules().items():
             # TODO: make this a parameter
-            torchscript_output_path = f"model_{round(time.time())}.torchscript"
-            serving_module = self.build_serving_module()
+            # the suffix keeps modules saved within the same second apart
+            torchscript_output_path = (
+                f"{module_name}_{round(time.time())}_{uuid.uuid4().hex}.torchscript"
+            )
             torch.jit.save(serving_module, torchscript_output_path)
             logger.info(f"Saved {module_name} to {torchscript_output_path}")
             output_paths[module_name] = torchscript_output_path
-- 
2.43.0


From 4aa0b5ed4d2524a5eeaa34f7be0e1766497b2ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 69/81] fix: do not publish a model its validation advises
 against

---
 reagent/workflow/training.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reagent/workflow/training.py b/reagent/workflow/training.py
index 8103c65..9bde8cd 100644
--- a/reagent/workflow/training.py
+++ b/reagent/workflow/training.py
@@ -207,7 +207,13 @@ def query_and_train(
     if validator is not None:
         results = run_validator(validator, results)
 
-    if publisher is not None:
+    validation_result = results.validation_result
+    should_publish = (
+        validation_result is None or validation_result.value.should_publish
+    )
+    if publisher is not None and not should_publish:
+        logger.info("Not publishing, because the validation advised against it")
+    elif publisher is not None:
         results = run_publisher(
             publisher,
             model,
-- 
2.43.0


From 37d7ff366ee1658d4f7eed041db906aa21ec3a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 70/81] fix: publishers sharing a file see each other's models

---
 reagent/publishers/file_system_publisher.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reagent/publishers/file_system_publisher.py b/reagent/publishers/file_system_publisher.py
index 01c5774..87645a2 100644
--- a/reagent/publishers/file_system_publisher.py
+++ b/reagent/publishers/file_system_publisher.py
@@ -49,9 +49,14 @@ if HAS_TINYDB:
 
         def __post_init_post_parse__(self):
             self.publishing_file = os.path.abspath(self.publishing_file)
-            self.db: TinyDB = TinyDB(self.publishing_file)
             logger.info(f"Using TinyDB at {self.publishing_file}.")
 
+        @property
+        def db(self) -> TinyDB:
+            # TinyDB caches query results and the next document id, so open it
+            # anew: the file may have been changed through another publisher
+            return TinyDB(self.publishing_file)
+
         def get_latest_published_model(
             self, model_manager: ModelManager, module_name: str
         ) -> str:
-- 
2.43.0


From 81810df0b01133f3d5ecefb719aceefda523fa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 71/81] fix: actor-critic training honours the given reader
 options

---
 reagent/workflow/model_managers/actor_critic_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/workflow/model_managers/actor_critic_base.py b/reagent/workflow/model_managers/actor_critic_base.py
index f93c25a..d6c2a83 100644
--- a/reagent/workflow/model_managers/actor_critic_base.py
+++ b/reagent/workflow/model_managers/actor_critic_base.py
@@ -257,7 +257,7 @@ class ActorCriticBase(ModelManager):
             num_epochs=num_epochs,
             use_gpu=self.use_gpu,
             batch_preprocessor=batch_preprocessor,
-            reader_options=self.reader_options,
+            reader_options=self.reader_options or reader_options,
             checkpoint_path=self._lightning_checkpoint_path,
             resource_options=resource_options or ResourceOptions(),
         )
-- 
2.43.0


From 79922fbe4abcb6df531276df74af09d7a9cf6f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 72/81] fix: evaluate CPE with the discrete CRR trainer

---
 reagent/training/discrete_crr_trainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reagent/training/discrete_crr_trainer.py b/reagent/training/discrete_crr_trainer.py
index 574dee4..7703acd 100644
--- a/reagent/training/discrete_crr_trainer.py
+++ b/reagent/training/discrete_crr_trainer.py
@@ -126,6 +126,10 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
     def q_network(self):
         return self.q1_network
 
+    @property
+    def q_network_target(self):
+        return self.q1_network_target
+
     # pyre-fixme[56]: Decorator `torch.no_grad(...)` could not be called, because
     #  its type `no_grad` is not callable.
     @torch.no_grad()
-- 
2.43.0


From c8d0dbc102b148b30c1d173bfcd211214dbb369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 73/81] fix: gmm_loss: keep the batch dimension of a single row

---
 reagent/models/mdn_rnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/mdn_rnn.py b/reagent/models/mdn_rnn.py
index 73057b3..caae4d9 100644
--- a/reagent/models/mdn_rnn.py
+++ b/reagent/models/mdn_rnn.py
@@ -225,7 +225,7 @@ def gmm_loss(batch, mus, sigmas, logpi, reduce=True):
     g_probs = torch.exp(g_log_probs)
     probs = torch.sum(g_probs, dim=-1)
 
-    log_prob = max_log_probs.squeeze() + torch.log(probs)
+    log_prob = max_log_probs.squeeze(-1) + torch.log(probs)
     if reduce:
         return -(torch.mean(log_prob))
     return -log_prob
-- 
2.43.0


From 3d6f42bf4f3dc8ab5d5057c08e4751f831bcf6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 74/81] fix: ImitatorTrainer: count minibatches

---
 reagent/training/imitator_training.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/training/imitator_training.py b/reagent/training/imitator_training.py
index 25aef36..c547327 100644
--- a/reagent/training/imitator_training.py
+++ b/reagent/training/imitator_training.py
@@ -49,6 +49,7 @@ class ImitatorTrainer(RLTrainer):
             actual_action_idxs = torch.max(learning_input.action, dim=1)[1]
 
             if train:
+                self.minibatch += 1
                 imitator_loss = torch.nn.CrossEntropyLoss()
                 bcq_loss = imitator_loss(action_preds, actual_action_idxs)
                 bcq_loss.backward()
-- 
2.43.0


From aa0ebee392646581de785bed2afb391403b10f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 75/81] fix: slates with keyed slots can be valued

---
 reagent/ope/estimators/slate_estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index cfe6caa..0c53cea 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -221,7 +221,7 @@ class Slate(SlateSlotObjects[SlateItem]):
             # pyre-fixme[16]: `Slate` has no attribute `_values`.
             return SlateSlotValues([item_values[i] for i in self._values])
         else:
-            return SlateSlotValues({k: item_values[i] for k, i in self._key_to_index})
+            return SlateSlotValues({k: item_values[i] for k, i in self})
 
     def slot_features(self, item_features: SlateItemFeatures) -> SlateSlotFeatures:
         """
@@ -239,7 +239,7 @@ class Slate(SlateSlotObjects[SlateItem]):
             )
         else:
             return SlateSlotFeatures(
-                {k: item_features[i].detach().clone() for k, i in self._key_to_index}
+                {k: item_features[i].detach().clone() for k, i in self}
             )
 
     def __repr__(self):
-- 
2.43.0


From 78b20d284b42c59caab696fbd52570f67743e5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 76/81] fix: expected rewards of a single slot stay per slot

---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 0c53cea..72f8fb9 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -292,7 +292,7 @@ class SlateSlotItemExpectations(SlateSlotItemValues):
         """
         dist = self.values_tensor(device)
         rewards = item_rewards.values.to(device=device)
-        rewards = torch.mm(dist, rewards.unsqueeze(0).t()).squeeze()
+        rewards = torch.mm(dist, rewards.unsqueeze(0).t()).squeeze(1)
         if self.is_sequence:
             return SlateSlotValues(rewards)
         else:
-- 
2.43.0


From 043b8fb3a84758753fbda0d75db878d7d1bd3941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 77/81] fix: slate_space: complete slates and keyed items

---
 reagent/ope/estimators/slate_estimators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 72f8fb9..987e18c 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -516,6 +516,7 @@ class SlateItemProbabilities(SlateItemValues):
             items = super().greedy(slate_size)
             return [(items, 1.0)]
         else:
+            self._normalize()
             buffer = [([], 1.0, 0.0)]
             # pyre-fixme[16]: `SlateItemProbabilities` has no attribute
             #  `_probabilities`.
@@ -531,14 +532,16 @@ class SlateItemProbabilities(SlateItemValues):
                         if i in b0:
                             continue
                         nb2 = b2 + i_prob
-                        if nb2 < 1.0:
+                        # a complete slate may take all the probabilities
+                        if nb2 < 1.0 or len(b0) + 1 == slate_size:
                             nb1 = b1 * i_prob / (1.0 - b2)
                             next_buffer.append(([*b0, i], nb1, nb2))
                 if max_size <= 0 or max_size > len(next_buffer):
                     buffer = next_buffer
                 else:
                     buffer = random.sample(next_buffer, max_size)
-            return [([SlateItem(i) for i in b[0]], b[1]) for b in buffer]
+            keys = self.keys
+            return [([keys[i] for i in b[0]], b[1]) for b in buffer]
 
 
 class SlateSlotItemProbabilities(SlateSlotItemValues):
-- 
2.43.0


From 75f6d7475b95c0ac255342196a71a5e3876dd511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 78/81] fix: greedy slot-item policy leaves placed items out of
 later slots

---
 reagent/ope/estimators/slate_estimators.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 987e18c..e50c147 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -568,11 +568,13 @@ class SlateSlotItemProbabilities(SlateSlotItemValues):
         """
         assert len(slate) <= len(self)
         if self._greedy:
+            last_items = []
             for slot, item in slate:
-                probs = self[slot]
-                its, _ = probs.sort()
-                if its[0] != item:
+                its, _ = self[slot].sort()
+                # items already placed are not available to later slots
+                if next(i for i in its if i not in last_items) != item:
                     return 0.0
+                last_items.append(item)
             return 1.0
         else:
             p = 1.0
-- 
2.43.0


From e88212e907706be0a832683810a7d734b9b61741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 79/81] fix: ERR metric normalises gains by 2**max

---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index e50c147..5ed4b8b 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -894,7 +894,7 @@ class ERRSlateMetric(SlateMetric):
         return slots.fill([1.0 / (r + 1) for r in range(len(slots))])
 
     def slot_values(self, rewards: SlateSlotValues) -> SlateSlotValues:
-        d = torch.tensor(self._max_reward, device=self._device).pow(2.0)
+        d = 2.0 ** self._max_reward
         r = (torch.pow(2.0, rewards.values.clamp(0.0, self._max_reward)) - 1.0) / d
         p = 1.0
         err = torch.zeros(len(rewards), dtype=torch.double, device=self._device)
-- 
2.43.0


From d841ec9bd597af4f274b6da36cbd927d312523d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 80/81] fix: cached slot expectations answer for the slots
 asked

---
 reagent/ope/estimators/slate_estimators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 5ed4b8b..5566143 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -419,7 +419,9 @@ class SlateItemProbabilities(SlateItemValues):
             self._slot_item_expectations is not None
             and len(self._slot_item_expectations) >= slate_size
         ):
-            return self._slot_item_expectations
+            return make_slot_item_distributions(
+                slots, self._slot_item_expectations.expectations
+            )
         item_size = len(self)
         assert item_size >= slate_size
         if self._greedy:
-- 
2.43.0


From edac288248869d42ac6ce9b1c5101f7cf8122d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 81/81] fix: slate doubly robust estimator without trainer

---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 5566143..10411ad 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -1273,7 +1273,7 @@ class DoublyRobustEstimator(DMEstimator):
 
     def _evaluate_sample(self, sample: LogSample) -> Optional[EstimatorSampleResult]:
         slots = sample.context.slots
-        if self._trainer.is_trained:
+        if self._trainer is not None and self._trainer.is_trained:
             tgt_slate_space = sample.tgt_slate_space(slots)
             features = []
             probs = []
-- 
2.43.0

