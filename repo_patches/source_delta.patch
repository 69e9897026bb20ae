From 7cd4879e57ccb1d89b2a77dc9c27ff8029714c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 01/55] fix: TransitionBatch.to_singles must not alias a batch
 of size one

The replay buffers relabel (idx) the batch that is handed to add() and then store its singles. For
batch_size == 1 the stored single was the caller's own object, so that adding the same transition
to a second buffer (or twice to the same one) rewrote the identifier of the entry stored earlier,
and later priority updates were lost or misdirected.
---
 coax/reward_tracing/_transition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/reward_tracing/_transition.py b/coax/reward_tracing/_transition.py
index 3d5a764..572ccd4 100644
--- a/coax/reward_tracing/_transition.py
+++ b/coax/reward_tracing/_transition.py
@@ -202,7 +202,7 @@ class TransitionBatch(CopyMixin):
 
         """
         if self.batch_size == 1:
-            yield self
+            yield self.copy()  # the caller may re-label (e.g. set idx on) the original
             return  # break out of generator
 
         def lookup(i, pytree):
-- 
2.43.0


From d3c93a80da1636fca0527c664f924f28b6f31946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:05 +0000
Subject: [PATCH 02/55] fix: stale ids must not undo a live priority update in
 the same call

When one call to PrioritizedReplayBuffer.update carried both the id of a live transition and the id
of the transition it had replaced in the ring (a batch that was sampled before the overwrite), the
stale entry wrote back the old priority of the shared slot and the live update was lost.
---
 coax/experience_replay/_prioritized.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/coax/experience_replay/_prioritized.py b/coax/experience_replay/_prioritized.py
index 7806e15..698c844 100644
--- a/coax/experience_replay/_prioritized.py
+++ b/coax/experience_replay/_prioritized.py
@@ -199,11 +199,9 @@ class PrioritizedReplayBuffer(BaseReplayBuffer):
         chex.assert_rank([idx, Adv], 1)
 
         idx_lookup = idx % self.capacity  # wrap around
-        new_values = onp.where(
-            _get_transition_batch_idx(self._storage[idx_lookup]) == idx,  # only update if ids match
-            onp.power(onp.abs(Adv) + self.epsilon, self.alpha),
-            self._sumtree.values[idx_lookup])
-        self._sumtree.set_values(idx_lookup, new_values)
+        live = _get_transition_batch_idx(self._storage[idx_lookup]) == idx  # ids must match
+        new_values = onp.power(onp.abs(Adv) + self.epsilon, self.alpha)
+        self._sumtree.set_values(idx_lookup[live], new_values[live])
 
     def clear(self):
         r""" Clear the experience replay buffer. """
-- 
2.43.0


From a830e3f343a132b9ccb0af889d756ee13cd65b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:26 +0000
Subject: [PATCH 03/55] fix: batched partial_reduce with a range that starts at
 the last leaf

SegmentTree.partial_reduce looked up the right sibling of every left bound in the batch, including
the bounds that are right children already. If one of the ranges starts at the very last leaf of a
tree with a power-of-two capacity, this raised an IndexError for the whole batch.
---
 coax/utils/_segment_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_segment_tree.py b/coax/utils/_segment_tree.py
index 61a4c79..34901ee 100644
--- a/coax/utils/_segment_tree.py
+++ b/coax/utils/_segment_tree.py
@@ -171,7 +171,9 @@ class SegmentTree:
                 return self.reducer(a, b)
 
             # only accumulate right-child value if 'i' was a left child of 'i_parent'
-            a = onp.where((i % 2 == 1) & ~done, self.reducer(a, self._arr[i + 1]), a)
+            # (note that 'i + 1' only exists if 'i' is a left child)
+            i_sibling = onp.where(i % 2 == 1, i + 1, i)
+            a = onp.where((i % 2 == 1) & ~done, self.reducer(a, self._arr[i_sibling]), a)
 
             # only accumulate left-child value if 'j' was a right child of 'j_parent'
             b = onp.where((j % 2 == 0) & ~done, self.reducer(b, self._arr[j - 1]), b)
-- 
2.43.0


From 4070da8a46c0524e18df68c327b200f442b87a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:26 +0000
Subject: [PATCH 04/55] fix: SumTree.inverse_cdf must only return leaves with a
 positive value

For u = 1, or when u * root_value is not smaller than the sum of the leaves due to rounding, the
descent ended up in an empty leaf or in the padding beyond the capacity, which made
PrioritizedReplayBuffer.sample fail or return garbage.
---
 coax/utils/_segment_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_segment_tree.py b/coax/utils/_segment_tree.py
index 34901ee..953aaa2 100644
--- a/coax/utils/_segment_tree.py
+++ b/coax/utils/_segment_tree.py
@@ -391,7 +391,8 @@ class SumTree(SegmentTree):
 
             # update (idx, values, level_offset_parent)
             left_child_values = self._arr[left_child_idx]
-            pick_left_child = left_child_values > values
+            # (never descend into an empty subtree, not even if u == 1 or due to rounding errors)
+            pick_left_child = (left_child_values > values) | (self._arr[right_child_idx] <= 0)
             idx = onp.where(pick_left_child, left_child_idx, right_child_idx)
             values = onp.where(pick_left_child, values, values - left_child_values)
             level_offset_parent = level_offset
-- 
2.43.0


From 278b6a723ea557ada7f91009bfbb6c6c8c186e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:42 +0000
Subject: [PATCH 05/55] fix: ExpectedSarsa target must be the expectation of q
 over the target policy

With a type-1 q-function (nonlinear in the action) or a value transform, evaluating q at the
action probabilities is not the documented expectation.
---
 coax/td_learning/_expectedsarsa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coax/td_learning/_expectedsarsa.py b/coax/td_learning/_expectedsarsa.py
index de2a064..191472a 100644
--- a/coax/td_learning/_expectedsarsa.py
+++ b/coax/td_learning/_expectedsarsa.py
@@ -1,5 +1,6 @@
 import gymnasium
 import jax
+import jax.numpy as jnp
 import haiku as hk
 
 from ..utils import is_stochastic
@@ -113,6 +114,7 @@ class ExpectedSarsa(BaseTDLearningQWithTargetPolicy):
         if is_stochastic(self.q):
             return self._get_target_dist_params(params, state, next(rngs), transition_batch, A_next)
 
-        Q_sa_next, _ = self.q_targ.function_type1(params, state, next(rngs), S_next, A_next, False)
+        Q_s_next, _ = self.q_targ.function_type2(params, state, next(rngs), S_next, False)
         f, f_inv = self.q.value_transform.transform_func, self.q_targ.value_transform.inverse_func
-        return f(transition_batch.Rn + transition_batch.In * f_inv(Q_sa_next))
+        Q_sa_next = jax.vmap(jnp.dot)(A_next, f_inv(Q_s_next))  # expectation over a ~ pi_targ
+        return f(transition_batch.Rn + transition_batch.In * Q_sa_next)
-- 
2.43.0


From 715b1663468a50ee68311cd1f0491709a35bd30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:42 +0000
Subject: [PATCH 06/55] fix: SoftQLearning must undo the value transform before
 the log-sum-exp

---
 coax/td_learning/_softqlearning.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coax/td_learning/_softqlearning.py b/coax/td_learning/_softqlearning.py
index 777bc25..1a23b83 100644
--- a/coax/td_learning/_softqlearning.py
+++ b/coax/td_learning/_softqlearning.py
@@ -99,8 +99,9 @@ class SoftQLearning(BaseTDLearningQ):
         Q_s_next, _ = self.q_targ.function_type2(params, state, next(rngs), S_next, False)
         assert Q_s_next.ndim == 2
         assert Q_s_next.shape[1] == self.q.action_space.n
-        Q_sa_next = self.temperature * logsumexp(Q_s_next / self.temperature, axis=-1)
-        assert Q_sa_next.ndim == 1
 
         f, f_inv = self.q.value_transform.transform_func, self.q_targ.value_transform.inverse_func
-        return f(transition_batch.Rn + transition_batch.In * f_inv(Q_sa_next))
+        Q_sa_next = self.temperature * logsumexp(f_inv(Q_s_next) / self.temperature, axis=-1)
+        assert Q_sa_next.ndim == 1
+
+        return f(transition_batch.Rn + transition_batch.In * Q_sa_next)
-- 
2.43.0


From f78201e0f39c35b51eaea94e1a24d524c9d80a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:16 +0000
Subject: [PATCH 07/55] fix: greedy actions must not vanish when XLA rounds q
 and max(q) differently

Under jit the comparison 'Q == Q.max()' may be evaluated with the two sides fused (and rounded)
differently, in which case no action is greedy and the normalization yields nan's.
---
 coax/_core/value_based_policy.py                | 2 ++
 coax/td_learning/_clippeddoubleqlearning.py     | 2 ++
 coax/td_learning/_doubleqlearning.py            | 4 ++++
 coax/td_learning/_qlearning.py                  | 4 ++++
 coax/td_learning/_softclippeddoubleqlearning.py | 2 ++
 5 files changed, 14 insertions(+)

diff --git a/coax/_core/value_based_policy.py b/coax/_core/value_based_policy.py
index dd1b9da..0345179 100644
--- a/coax/_core/value_based_policy.py
+++ b/coax/_core/value_based_policy.py
@@ -190,6 +190,8 @@ class EpsilonGreedy(BaseValueBasedPolicy):
             Q_s = self._Q_s(params, state, rng, S)
 
             A_greedy = (Q_s == Q_s.max(axis=1, keepdims=True)).astype(Q_s.dtype)
+            # make sure that there is at least one max (XLA may round the two sides differently)
+            A_greedy = jnp.maximum(A_greedy, jax.nn.one_hot(Q_s.argmax(axis=1), Q_s.shape[1]))
             A_greedy /= A_greedy.sum(axis=1, keepdims=True)  # there may be multiple max's (ties)
             A_greedy *= 1 - params['epsilon']                # take away ε from greedy action(s)
             A_greedy += params['epsilon'] / self.q.action_space.n  # spread ε evenly to all actions
diff --git a/coax/td_learning/_clippeddoubleqlearning.py b/coax/td_learning/_clippeddoubleqlearning.py
index bd2a48b..a850872 100644
--- a/coax/td_learning/_clippeddoubleqlearning.py
+++ b/coax/td_learning/_clippeddoubleqlearning.py
@@ -246,6 +246,8 @@ class ClippedDoubleQLearning(BaseTDLearningQ):  # TODO(krholshe): make this less
                     Q_s_next, _ = q_i.function_type2(params_i, state_i, next(rngs), S_next, False)
                 assert Q_s_next.ndim == 2, f"bad shape: {Q_s_next.shape}"
                 A_next = (Q_s_next == Q_s_next.max(axis=1, keepdims=True)).astype(Q_s_next.dtype)
+                # make sure that there is at least one max (XLA may round the two sides differently)
+                A_next = jnp.maximum(A_next, jax.nn.one_hot(Q_s_next.argmax(axis=1), Q_s_next.shape[1]))
                 A_next /= A_next.sum(axis=1, keepdims=True)  # there may be ties
 
                 # evaluate on q_j
diff --git a/coax/td_learning/_doubleqlearning.py b/coax/td_learning/_doubleqlearning.py
index b5bae63..9e52e14 100644
--- a/coax/td_learning/_doubleqlearning.py
+++ b/coax/td_learning/_doubleqlearning.py
@@ -1,5 +1,7 @@
 import warnings
 
+import jax
+import jax.numpy as jnp
 import haiku as hk
 import chex
 from gymnasium.spaces import Discrete
@@ -114,6 +116,8 @@ class DoubleQLearning(BaseTDLearningQWithTargetPolicy):
 
             # get greedy action as the argmax over q_targ
             A_next = (Q_s == Q_s.max(axis=1, keepdims=True)).astype(Q_s.dtype)
+            # make sure that there is at least one max (XLA may round the two sides differently)
+            A_next = jnp.maximum(A_next, jax.nn.one_hot(Q_s.argmax(axis=1), Q_s.shape[1]))
             A_next /= A_next.sum(axis=1, keepdims=True)  # there may be ties
 
         else:
diff --git a/coax/td_learning/_qlearning.py b/coax/td_learning/_qlearning.py
index 5a0655f..13e0a60 100644
--- a/coax/td_learning/_qlearning.py
+++ b/coax/td_learning/_qlearning.py
@@ -1,5 +1,7 @@
 import warnings
 
+import jax
+import jax.numpy as jnp
 import haiku as hk
 import chex
 from gymnasium.spaces import Discrete
@@ -126,6 +128,8 @@ class QLearning(BaseTDLearningQWithTargetPolicy):
 
             # get greedy action as the argmax over q_targ
             A_next = (Q_s == Q_s.max(axis=1, keepdims=True)).astype(Q_s.dtype)
+            # make sure that there is at least one max (XLA may round the two sides differently)
+            A_next = jnp.maximum(A_next, jax.nn.one_hot(Q_s.argmax(axis=1), Q_s.shape[1]))
             A_next /= A_next.sum(axis=1, keepdims=True)  # there may be ties
 
         else:
diff --git a/coax/td_learning/_softclippeddoubleqlearning.py b/coax/td_learning/_softclippeddoubleqlearning.py
index 12a6ab3..4618a6e 100644
--- a/coax/td_learning/_softclippeddoubleqlearning.py
+++ b/coax/td_learning/_softclippeddoubleqlearning.py
@@ -34,6 +34,8 @@ class SoftClippedDoubleQLearning(ClippedDoubleQLearning):
                     Q_s_next, _ = q_i.function_type2(params_i, state_i, next(rngs), S_next, False)
                 assert Q_s_next.ndim == 2, f"bad shape: {Q_s_next.shape}"
                 A_next = (Q_s_next == Q_s_next.max(axis=1, keepdims=True)).astype(Q_s_next.dtype)
+                # make sure that there is at least one max (XLA may round the two sides differently)
+                A_next = jnp.maximum(A_next, jax.nn.one_hot(Q_s_next.argmax(axis=1), Q_s_next.shape[1]))
                 A_next /= A_next.sum(axis=1, keepdims=True)  # there may be ties
 
                 # evaluate on q_j
-- 
2.43.0


From b9c26649e6093ff127f9f11b92fc64ceb21661cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:32 +0000
Subject: [PATCH 08/55] fix: importance weights must also apply to the
 categorical distributional loss

---
 coax/td_learning/_base.py                   | 8 ++++----
 coax/td_learning/_clippeddoubleqlearning.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/coax/td_learning/_base.py b/coax/td_learning/_base.py
index 66d3650..5e90c43 100644
--- a/coax/td_learning/_base.py
+++ b/coax/td_learning/_base.py
@@ -261,8 +261,8 @@ class BaseTDLearningV(BaseTDLearning):
                         dist_params_target, 1., -regularizer, self.v.value_transform)
 
                 if isinstance(self.v.proba_dist, DiscretizedIntervalDist):
-                    loss = jnp.mean(self.v.proba_dist.cross_entropy(dist_params_target,
-                                                                    dist_params))
+                    loss = jnp.mean(W * self.v.proba_dist.cross_entropy(dist_params_target,
+                                                                        dist_params))
                 elif isinstance(self.v.proba_dist, EmpiricalQuantileDist):
                     loss = quantile_huber(dist_params_target['values'],
                                           dist_params['values'],
@@ -418,8 +418,8 @@ class BaseTDLearningQ(BaseTDLearning):
                         dist_params_target, 1., -regularizer, self.q.value_transform)
 
                 if isinstance(self.q.proba_dist, DiscretizedIntervalDist):
-                    loss = jnp.mean(self.q.proba_dist.cross_entropy(dist_params_target,
-                                                                    dist_params))
+                    loss = jnp.mean(W * self.q.proba_dist.cross_entropy(dist_params_target,
+                                                                        dist_params))
                 elif isinstance(self.q.proba_dist, EmpiricalQuantileDist):
                     loss = quantile_huber(dist_params_target['values'],
                                           dist_params['values'],
diff --git a/coax/td_learning/_clippeddoubleqlearning.py b/coax/td_learning/_clippeddoubleqlearning.py
index a850872..de37870 100644
--- a/coax/td_learning/_clippeddoubleqlearning.py
+++ b/coax/td_learning/_clippeddoubleqlearning.py
@@ -145,8 +145,8 @@ class ClippedDoubleQLearning(BaseTDLearningQ):  # TODO(krholshe): make this less
                         dist_params_target, 1., -regularizer, self.q.value_transform)
 
                 if isinstance(self.q.proba_dist, DiscretizedIntervalDist):
-                    loss = jnp.mean(self.q.proba_dist.cross_entropy(dist_params_target,
-                                                                    dist_params))
+                    loss = jnp.mean(W * self.q.proba_dist.cross_entropy(dist_params_target,
+                                                                        dist_params))
                 elif isinstance(self.q.proba_dist, EmpiricalQuantileDist):
                     loss = quantile_huber(dist_params_target['values'],
                                           dist_params['values'],
-- 
2.43.0


From 47c02c6ea050a6fe35e2d8c2a52789ccd68162e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:32 +0000
Subject: [PATCH 09/55] fix: StochasticV/StochasticQ with both value_range and
 a jax value_transform

---
 coax/_core/stochastic_q.py | 2 +-
 coax/_core/stochastic_v.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/_core/stochastic_q.py b/coax/_core/stochastic_q.py
index bf24020..31e2882 100644
--- a/coax/_core/stochastic_q.py
+++ b/coax/_core/stochastic_q.py
@@ -244,7 +244,7 @@ class StochasticQ(BaseStochasticFuncType1):
         if value_range is not None:
             if value_transform is not None:
                 f, _ = value_transform
-                value_range = f(value_range[0]), f(value_range[1])
+                value_range = float(f(value_range[0])), float(f(value_range[1]))
             reward_space = Box(*value_range, shape=())
             return DiscretizedIntervalDist(reward_space, num_bins)
         else:
diff --git a/coax/_core/stochastic_v.py b/coax/_core/stochastic_v.py
index 370f4d5..e7dd32a 100644
--- a/coax/_core/stochastic_v.py
+++ b/coax/_core/stochastic_v.py
@@ -204,7 +204,7 @@ class StochasticV(BaseStochasticFuncType2):
     def _get_proba_dist(value_range, value_transform, num_bins):
         if value_transform is not None:
             f, _ = value_transform
-            value_range = f(value_range[0]), f(value_range[1])
+            value_range = float(f(value_range[0])), float(f(value_range[1]))
         reward_space = Box(*value_range, shape=())
         return DiscretizedIntervalDist(reward_space, num_bins)
 
-- 
2.43.0


From a0804e9661a443d6c414e5acb648ca2dfaa977c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:44 +0000
Subject: [PATCH 10/55] fix: distributional ExpectedSarsa must mix the
 next-state distributions over actions

---
 coax/td_learning/_expectedsarsa.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/coax/td_learning/_expectedsarsa.py b/coax/td_learning/_expectedsarsa.py
index 191472a..3fe0110 100644
--- a/coax/td_learning/_expectedsarsa.py
+++ b/coax/td_learning/_expectedsarsa.py
@@ -3,6 +3,7 @@ import jax
 import jax.numpy as jnp
 import haiku as hk
 
+from ..proba_dists import DiscretizedIntervalDist
 from ..utils import is_stochastic
 from ._base import BaseTDLearningQWithTargetPolicy
 
@@ -112,7 +113,19 @@ class ExpectedSarsa(BaseTDLearningQWithTargetPolicy):
         S_next = self.q_targ.observation_preprocessor(next(rngs), transition_batch.S_next)
 
         if is_stochastic(self.q):
-            return self._get_target_dist_params(params, state, next(rngs), transition_batch, A_next)
+            dist_params_next, _ = self.q_targ.function_type2(
+                params, state, next(rngs), S_next, False)
+            if isinstance(self.q_targ.proba_dist, DiscretizedIntervalDist):
+                # mix the probabilities (instead of the logits) over a ~ pi_targ
+                p = jax.nn.softmax(dist_params_next['logits'], axis=-1)
+                p = jnp.einsum('ij,ijk->ik', A_next, p)
+                dist_params_next = {'logits': jnp.log(jnp.maximum(p, 1e-16))}
+            else:
+                dist_params_next = jax.tree_map(
+                    lambda x: jnp.einsum('ij,ijk->ik', A_next, x), dist_params_next)
+            return self.q_targ.proba_dist.affine_transform(
+                dist_params_next, transition_batch.In, transition_batch.Rn,
+                self.q_targ.value_transform)
 
         Q_s_next, _ = self.q_targ.function_type2(params, state, next(rngs), S_next, False)
         f, f_inv = self.q.value_transform.transform_func, self.q_targ.value_transform.inverse_func
-- 
2.43.0


From e40809df389797bbfb985b95ea237152013f56c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:07 +0000
Subject: [PATCH 11/55] fix: Q and TransitionModel must initialise with the
 given observation_preprocessor

---
 coax/_core/q.py                | 1 +
 coax/_core/transition_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/coax/_core/q.py b/coax/_core/q.py
index 5b21cee..8cca881 100644
--- a/coax/_core/q.py
+++ b/coax/_core/q.py
@@ -269,6 +269,7 @@ class Q(BaseFunc):
         Env = namedtuple('Env', ('observation_space', 'action_space'))
         example_data_per_modeltype = self.example_data(
             env=Env(self.observation_space, self.action_space),
+            observation_preprocessor=self.observation_preprocessor,
             action_preprocessor=self.action_preprocessor,
             batch_size=1,
             random_seed=self.random_seed)
diff --git a/coax/_core/transition_model.py b/coax/_core/transition_model.py
index d3784d9..064fda2 100644
--- a/coax/_core/transition_model.py
+++ b/coax/_core/transition_model.py
@@ -284,6 +284,7 @@ class TransitionModel(BaseFunc):
         Env = namedtuple('Env', ('observation_space', 'action_space'))
         example_data_per_modeltype = self.example_data(
             env=Env(self.observation_space, self.action_space),
+            observation_preprocessor=self.observation_preprocessor,
             action_preprocessor=self.action_preprocessor,
             batch_size=1,
             random_seed=self.random_seed)
-- 
2.43.0


From 7c52415a7786a170785f5c130aabb65ca28d941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:05 +0000
Subject: [PATCH 12/55] fix: SuccessorStateQ must accept a
 StochasticTransitionModel

---
 coax/_core/successor_state_q.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/_core/successor_state_q.py b/coax/_core/successor_state_q.py
index cadd2ba..c2bfb8c 100644
--- a/coax/_core/successor_state_q.py
+++ b/coax/_core/successor_state_q.py
@@ -63,7 +63,9 @@ class SuccessorStateQ:
         self.action_space = self.p.action_space
         self.action_preprocessor = self.p.action_preprocessor
         self.observation_preprocessor = self.p.observation_preprocessor
-        self.observation_postprocessor = self.p.observation_postprocessor
+        self.observation_postprocessor = (
+            self.p.proba_dist.postprocess_variate if is_stochastic(self.p)
+            else self.p.observation_postprocessor)
         self.value_transform = self.v.value_transform
 
         if not check_preprocessors(
-- 
2.43.0


From b31b3a2d6c312724e90847b33135fb942076e979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:05 +0000
Subject: [PATCH 13/55] fix: SuccessorStateQ must undo the reward function's
 value transform

---
 coax/_core/successor_state_q.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coax/_core/successor_state_q.py b/coax/_core/successor_state_q.py
index c2bfb8c..e53b2df 100644
--- a/coax/_core/successor_state_q.py
+++ b/coax/_core/successor_state_q.py
@@ -130,6 +130,8 @@ class SuccessorStateQ:
                     R, new_state['r'] = self.r.function_type1(
                         params['r'], state['r'], next(rngs), S, A, is_training)
 
+                R = self.r.value_transform.inverse_func(R)
+
                 # v(s')
                 if is_stochastic(self.v):
                     dist_params, new_state['v'] = self.v.function(
@@ -186,6 +188,8 @@ class SuccessorStateQ:
                         params['r'], state['r'], next(rngs), S, is_training)
                     R_rep = jax.tree_map(self._reshape_to_replicas, R_rep)
 
+                R_rep = self.r.value_transform.inverse_func(R_rep)
+
                 # v(s')  # note: since the input S_next is replicated, so is the output V
                 if is_stochastic(self.v):
                     dist_params_rep, new_state['v'] = self.v.function(
-- 
2.43.0


From fef2528e202d14621e32a04601d8f3d85a312876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:05 +0000
Subject: [PATCH 14/55] fix: StochasticRewardFunction must not ignore its
 arguments

---
 coax/_core/stochastic_reward_function.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coax/_core/stochastic_reward_function.py b/coax/_core/stochastic_reward_function.py
index 32fb972..6631687 100644
--- a/coax/_core/stochastic_reward_function.py
+++ b/coax/_core/stochastic_reward_function.py
@@ -70,6 +70,7 @@ class StochasticRewardFunction(StochasticQ):
             action_preprocessor=None, value_transform=None, random_seed=None):
 
         super().__init__(
-            func, env, value_range=(value_range or env.reward_range), num_bins=51,
-            observation_preprocessor=None, action_preprocessor=None, value_transform=None,
-            random_seed=None)
+            func, env, value_range=(value_range or env.reward_range), num_bins=num_bins,
+            observation_preprocessor=observation_preprocessor,
+            action_preprocessor=action_preprocessor, value_transform=value_transform,
+            random_seed=random_seed)
-- 
2.43.0


From e7815ca44270b881f374dc20de3eb8c7568bc24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:05 +0000
Subject: [PATCH 15/55] fix: BaseProbaDist.postprocess_variate must honour
 index

---
 coax/proba_dists/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/proba_dists/_base.py b/coax/proba_dists/_base.py
index da88a6c..ac32ae8 100644
--- a/coax/proba_dists/_base.py
+++ b/coax/proba_dists/_base.py
@@ -298,7 +298,7 @@ class BaseProbaDist(ABC):
             :code:`x in self.space`.
 
         """
-        return X if batch_mode else batch_to_single(X)
+        return X if batch_mode else batch_to_single(X, index=index)
 
     def preprocess_variate(self, rng, X):
         r"""
-- 
2.43.0


From bebea6378d08d06bd006c590d1a5c906983d5e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:07 +0000
Subject: [PATCH 16/55] fix: StochasticV/StochasticQ must undo the value
 transform when called

---
 coax/_core/stochastic_q.py | 9 ++++++---
 coax/_core/stochastic_v.py | 8 +++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/coax/_core/stochastic_q.py b/coax/_core/stochastic_q.py
index 31e2882..36e18d5 100644
--- a/coax/_core/stochastic_q.py
+++ b/coax/_core/stochastic_q.py
@@ -1,3 +1,4 @@
+import jax
 from gymnasium.spaces import Box
 
 from ..utils import default_preprocessor
@@ -162,7 +163,9 @@ class StochasticQ(BaseStochasticFuncType1):
             single float or a list of :math:`n` floats, one for each discrete action.
 
         """
-        return super().__call__(s, a=a, return_logp=return_logp)
+        value, logp = super().__call__(s, a=a, return_logp=True)
+        value = jax.tree_map(self.value_transform.inverse_func, value)
+        return (value, logp) if return_logp else value
 
     def mean(self, s, a=None):
         r"""
@@ -187,7 +190,7 @@ class StochasticQ(BaseStochasticFuncType1):
             of :math:`n` values, one for each discrete action.
 
         """
-        return super().mean(s, a=a)
+        return jax.tree_map(self.value_transform.inverse_func, super().mean(s, a=a))
 
     def mode(self, s, a=None):
         r"""
@@ -212,7 +215,7 @@ class StochasticQ(BaseStochasticFuncType1):
             of :math:`n` values, one for each discrete action.
 
         """
-        return super().mode(s, a=a)
+        return jax.tree_map(self.value_transform.inverse_func, super().mode(s, a=a))
 
     def dist_params(self, s, a=None):
         r"""
diff --git a/coax/_core/stochastic_v.py b/coax/_core/stochastic_v.py
index e7dd32a..8c1a72b 100644
--- a/coax/_core/stochastic_v.py
+++ b/coax/_core/stochastic_v.py
@@ -137,7 +137,9 @@ class StochasticV(BaseStochasticFuncType2):
             single float or a list of :math:`n` floats, one for each discrete action.
 
         """
-        return super().__call__(s, return_logp=return_logp)
+        value, logp = super().__call__(s, return_logp=True)
+        value = self.value_transform.inverse_func(value)
+        return (value, logp) if return_logp else value
 
     def mean(self, s):
         r"""
@@ -157,7 +159,7 @@ class StochasticV(BaseStochasticFuncType2):
             A single value associated with the state observation :math:`s`.
 
         """
-        return super().mean(s)
+        return self.value_transform.inverse_func(super().mean(s))
 
     def mode(self, s):
         r"""
@@ -177,7 +179,7 @@ class StochasticV(BaseStochasticFuncType2):
             A single value associated with the state observation :math:`s`.
 
         """
-        return super().mode(s)
+        return self.value_transform.inverse_func(super().mode(s))
 
     def dist_params(self, s):
         r"""
-- 
2.43.0


From 8459f3fbdd7fe467b2ce11bb0c8bf181e0d3ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:07 +0000
Subject: [PATCH 17/55] fix: NormalDist.affine_transform must scale the mean

---
 coax/proba_dists/_normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/proba_dists/_normal.py b/coax/proba_dists/_normal.py
index 8ae101f..174c987 100644
--- a/coax/proba_dists/_normal.py
+++ b/coax/proba_dists/_normal.py
@@ -165,7 +165,7 @@ class NormalDist(BaseProbaDist):
             mu = check_shape(dist_params['mu'], name='mu', flatten=False)
             logvar = check_shape(dist_params['logvar'], name='logvar', flatten=False)
             var_new = f(f_inv(jnp.exp(logvar)) * jnp.square(scale))
-            return {'mu': f(f_inv(mu) + shift), 'logvar': jnp.log(var_new)}
+            return {'mu': f(f_inv(mu) * scale + shift), 'logvar': jnp.log(var_new)}
 
         self._sample_func = jit(sample)
         self._mean_func = jit(mean)
-- 
2.43.0


From 4179f281e865898ffdd156a4cc3f3288a416b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:22 +0000
Subject: [PATCH 18/55] fix: EmpiricalQuantileDist must sample one value per
 batch element

---
 coax/proba_dists/_empirical_quantile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coax/proba_dists/_empirical_quantile.py b/coax/proba_dists/_empirical_quantile.py
index 3572ee3..4816e61 100644
--- a/coax/proba_dists/_empirical_quantile.py
+++ b/coax/proba_dists/_empirical_quantile.py
@@ -30,12 +30,13 @@ class EmpiricalQuantileDist(BaseProbaDist):
         def sample(dist_params, rng):
             # bootstrapping
             values = check_shape(dist_params['values'], 'values')
-            return jax.random.choice(rng, values, values.shape, replace=True)
+            rngs = jax.random.split(rng, values.shape[0])
+            return jax.vmap(jax.random.choice)(rngs, values)
 
         def log_proba(dist_params, X):
             X = check_shape(X, 'X')
             values = check_shape(dist_params['values'], 'values')
-            occurrences = jnp.mean(X[None, ...] == values[..., None], axis=-1)
+            occurrences = jnp.mean(X[..., None] == values, axis=-1)
             return jnp.log(occurrences)
 
         def affine_transform(dist_params, scale, shift, value_transform=None):
-- 
2.43.0


From c159bd15de4bd4d13c57ceea3545555eca935e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:22 +0000
Subject: [PATCH 19/55] fix: SquashedNormalDist must be usable without
 clip_logvar

---
 coax/proba_dists/_squashed_normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/proba_dists/_squashed_normal.py b/coax/proba_dists/_squashed_normal.py
index 6c66a64..09d032a 100644
--- a/coax/proba_dists/_squashed_normal.py
+++ b/coax/proba_dists/_squashed_normal.py
@@ -32,7 +32,7 @@ class SquashedNormalDist(BaseProbaDist):
 
     """
 
-    def __init__(self, space, clip_logvar=None):
+    def __init__(self, space, clip_logvar=(-20., 20.)):
         super().__init__(space)
 
         self._normal_dist = NormalDist(space=space, clip_logvar=clip_logvar)
-- 
2.43.0


From bb70e9ea61adfdcc60ed611fa493787baefe841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:20 +0000
Subject: [PATCH 20/55] fix: SquashedNormalDist.log_proba must account for the
 bounds of the space

---
 coax/proba_dists/_squashed_normal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/proba_dists/_squashed_normal.py b/coax/proba_dists/_squashed_normal.py
index 09d032a..152ca7d 100644
--- a/coax/proba_dists/_squashed_normal.py
+++ b/coax/proba_dists/_squashed_normal.py
@@ -53,9 +53,11 @@ class SquashedNormalDist(BaseProbaDist):
         arctanh_eps = 1e-7  # avoid arctanh(1) = acrtanh(-1) = inf
 
         def log_proba(dist_params, X):
+            X = (X - self._offset) / self._scale
             X = jnp.arctanh(jnp.clip(X, a_min=-1.0 + arctanh_eps, a_max=1.0 - arctanh_eps))
             logp = self._normal_dist.log_proba(dist_params, X)
-            return logp - jnp.sum(2 * (jnp.log(2) - X - jnp.log(1 + jnp.exp(-2 * X))), axis=-1)
+            logp -= jnp.sum(2 * (jnp.log(2) - X - jnp.log(1 + jnp.exp(-2 * X))), axis=-1)
+            return logp - jnp.sum(jnp.log(self._scale))
 
         self._sample_func = jax.jit(sample)
         self._mean_func = jax.jit(mean)
-- 
2.43.0


From 2d59f3904e24abebb8e9c115f906e7f26802db72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:00 +0000
Subject: [PATCH 21/55] fix: RandomPolicy log-propensity for Discrete actions

---
 coax/_core/random_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/_core/random_policy.py b/coax/_core/random_policy.py
index 28e019f..ebbe197 100644
--- a/coax/_core/random_policy.py
+++ b/coax/_core/random_policy.py
@@ -42,7 +42,7 @@ class RandomPolicy:
             return a
 
         if isinstance(self.action_space, gymnasium.spaces.Discrete):
-            logp = -onp.log(self.num_actions)
+            logp = -onp.log(self.action_space.n)
             return a, logp
 
         if isinstance(self.action_space, gymnasium.spaces.Box):
-- 
2.43.0


From 729fe53c59af05da9db4771e614456a17386086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:53 +0000
Subject: [PATCH 22/55] fix: the log-propensity of a sampled categorical must
 be that of the sampled class

---
 coax/_core/base_stochastic_func_type1.py  |  6 ++++--
 coax/_core/base_stochastic_func_type2.py  |  2 +-
 coax/proba_dists/_base.py                 |  4 ++++
 coax/proba_dists/_categorical.py          |  3 +++
 coax/proba_dists/_composite.py            | 12 ++++++++++++
 coax/proba_dists/_discretized_interval.py |  3 +++
 6 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/coax/_core/base_stochastic_func_type1.py b/coax/_core/base_stochastic_func_type1.py
index ff9f5b6..8632d19 100644
--- a/coax/_core/base_stochastic_func_type1.py
+++ b/coax/_core/base_stochastic_func_type1.py
@@ -262,7 +262,8 @@ class BaseStochasticFuncType1(BaseFunc):
                 rngs = hk.PRNGSequence(rng)
                 dist_params, _ = self.function_type1(params, state, next(rngs), S, A, False)
                 S_next = self.proba_dist.sample(dist_params, next(rngs))
-                logP = self.proba_dist.log_proba(dist_params, S_next)
+                logP = self.proba_dist.log_proba(
+                    dist_params, self.proba_dist._discretize(S_next))
                 return S_next, logP
             self._sample_func_type1 = jit(sample_func_type1)
         return self._sample_func_type1
@@ -285,7 +286,8 @@ class BaseStochasticFuncType1(BaseFunc):
                 dist_params, _ = self.function_type2(params, state, next(rngs), S, False)
                 dist_params = jax.tree_map(self._reshape_to_replicas, dist_params)
                 X = self.proba_dist.sample(dist_params, next(rngs))    # (batch x n, *shape)
-                logP = self.proba_dist.log_proba(dist_params, X)       # (batch x n)
+                logP = self.proba_dist.log_proba(
+                    dist_params, self.proba_dist._discretize(X))       # (batch x n)
                 X = jax.tree_map(self._reshape_from_replicas, X)       # (batch, n, *shape)
                 logP = self._reshape_from_replicas(logP)               # (batch, n)
                 return X, logP
diff --git a/coax/_core/base_stochastic_func_type2.py b/coax/_core/base_stochastic_func_type2.py
index d3d8791..d0592e4 100644
--- a/coax/_core/base_stochastic_func_type2.py
+++ b/coax/_core/base_stochastic_func_type2.py
@@ -67,7 +67,7 @@ class StochasticFuncType2Mixin:
                 rngs = hk.PRNGSequence(rng)
                 dist_params, _ = self.function(params, state, next(rngs), S, False)
                 X = self.proba_dist.sample(dist_params, next(rngs))
-                logP = self.proba_dist.log_proba(dist_params, X)
+                logP = self.proba_dist.log_proba(dist_params, self.proba_dist._discretize(X))
                 return X, logP
             self._sample_func = jit(sample_func)
         return self._sample_func
diff --git a/coax/proba_dists/_base.py b/coax/proba_dists/_base.py
index ac32ae8..d191ac8 100644
--- a/coax/proba_dists/_base.py
+++ b/coax/proba_dists/_base.py
@@ -300,6 +300,10 @@ class BaseProbaDist(ABC):
         """
         return X if batch_mode else batch_to_single(X, index=index)
 
+    def _discretize(self, X):
+        """ turns almost-one-hot (differentiable) variates into the one-hot variates they stand for """
+        return X
+
     def preprocess_variate(self, rng, X):
         r"""
 
diff --git a/coax/proba_dists/_categorical.py b/coax/proba_dists/_categorical.py
index 78dbfcb..1860a2e 100644
--- a/coax/proba_dists/_categorical.py
+++ b/coax/proba_dists/_categorical.py
@@ -126,6 +126,9 @@ class CategoricalDist(BaseProbaDist):
     def default_priors(self):
         return {'logits': jnp.zeros((1, self.space.n))}
 
+    def _discretize(self, X):
+        return jax.nn.one_hot(jnp.argmax(X, axis=-1), self.space.n, dtype=X.dtype)
+
     def preprocess_variate(self, rng, X):
         X = jnp.asarray(X)
         assert X.ndim <= 1, f"unexpected X.shape: {X.shape}"
diff --git a/coax/proba_dists/_composite.py b/coax/proba_dists/_composite.py
index 01d01e7..74d78aa 100644
--- a/coax/proba_dists/_composite.py
+++ b/coax/proba_dists/_composite.py
@@ -261,6 +261,18 @@ class ProbaDist(BaseProbaDist):
             f"postprocess_variate not implemented for space: {self.space.__class__.__name__}; "
             "please send us a bug report / feature request")
 
+    def _discretize(self, X):
+        if self._structure_type == StructureType.LEAF:
+            return self._structure._discretize(X)
+
+        if self._structure_type == StructureType.LIST:
+            return [dist._discretize(X[i]) for i, dist in enumerate(self._structure)]
+
+        if self._structure_type == StructureType.DICT:
+            return {k: dist._discretize(X[k]) for k, dist in self._structure.items()}
+
+        raise AssertionError(f"bad structure_type: {self._structure_type}")
+
     def preprocess_variate(self, rng, X):
         rngs = hk.PRNGSequence(rng)
 
diff --git a/coax/proba_dists/_discretized_interval.py b/coax/proba_dists/_discretized_interval.py
index 1d3152e..2c466fe 100644
--- a/coax/proba_dists/_discretized_interval.py
+++ b/coax/proba_dists/_discretized_interval.py
@@ -140,6 +140,9 @@ class DiscretizedIntervalDist(CategoricalDist):
     def atoms(self):
         return self.__atoms.copy()
 
+    def _discretize(self, X):
+        return X  # almost-one-hot variates are interpolated, see postprocess_variate
+
     def preprocess_variate(self, rng, X):
         X = jnp.asarray(X)
         assert X.ndim <= 1, f"unexpected X.shape: {X.shape}"
-- 
2.43.0


From 7d9308d87f25f7dbf1402e52fab3dba58230cb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:22 +0000
Subject: [PATCH 23/55] fix: the params of value-based policies must be
 settable

---
 coax/_core/value_based_policy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coax/_core/value_based_policy.py b/coax/_core/value_based_policy.py
index 0345179..347d171 100644
--- a/coax/_core/value_based_policy.py
+++ b/coax/_core/value_based_policy.py
@@ -204,7 +204,7 @@ class EpsilonGreedy(BaseValueBasedPolicy):
     @property
     @docstring(Q.params)
     def params(self):
-        return hk.data_structures.to_immutable_dict({'epsilon': self.epsilon, 'q': self.q.params})
+        return {'epsilon': self.epsilon, 'q': self.q.params}
 
     @params.setter
     def params(self, new_params):
@@ -263,8 +263,7 @@ class BoltzmannPolicy(BaseValueBasedPolicy):
     @property
     @docstring(Q.params)
     def params(self):
-        return hk.data_structures.to_immutable_dict(
-            {'temperature': self.temperature, 'q': self.q.params})
+        return {'temperature': self.temperature, 'q': self.q.params}
 
     @params.setter
     def params(self, new_params):
-- 
2.43.0


From 5f1b1a4e0694e3f1c40608a923529399a1a5c89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:13 +0000
Subject: [PATCH 24/55] fix: NormalDist.postprocess_variate must return
 elements of its Box

---
 coax/proba_dists/_normal.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/coax/proba_dists/_normal.py b/coax/proba_dists/_normal.py
index 174c987..e76fd07 100644
--- a/coax/proba_dists/_normal.py
+++ b/coax/proba_dists/_normal.py
@@ -189,11 +189,18 @@ class NormalDist(BaseProbaDist):
         return X
 
     def postprocess_variate(self, rng, X, index=0, batch_mode=False):
-        X = jnp.asarray(X, dtype=self.space.dtype)                    # ensure ndarray
+        isfloat = jnp.issubdtype(self.space.dtype, jnp.floating)
+        X = jnp.asarray(X, dtype=(self.space.dtype if isfloat else None))  # ensure ndarray
         X = jnp.reshape(X, (-1, *self.space.shape))                   # ensure correct shape
         X = jnp.clip(X, *self.clip_reals)                             # clip for stability
         X = self._low + (self._high - self._low) * jax.nn.sigmoid(X)  # reals->closed interval
-        return X if batch_mode else onp.asanyarray(X[index])
+        X = jnp.clip(X, self._low, self._high)                        # undo rounding errors
+        if not isfloat:
+            X = jnp.round(X).astype(self.space.dtype)
+        if batch_mode:
+            return X
+        x = onp.asarray(X[index], dtype=self.space.dtype)
+        return onp.asanyarray(onp.clip(x, self.space.low, self.space.high))
 
     @property
     def sample(self):
-- 
2.43.0


From efe5eed61ab878fc16acaffb5d6374523a0d3cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:13 +0000
Subject: [PATCH 25/55] fix: DiscretizedIntervalDist.preprocess_variate must
 accept reals

---
 coax/proba_dists/_discretized_interval.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coax/proba_dists/_discretized_interval.py b/coax/proba_dists/_discretized_interval.py
index 2c466fe..914d8f2 100644
--- a/coax/proba_dists/_discretized_interval.py
+++ b/coax/proba_dists/_discretized_interval.py
@@ -146,9 +146,9 @@ class DiscretizedIntervalDist(CategoricalDist):
     def preprocess_variate(self, rng, X):
         X = jnp.asarray(X)
         assert X.ndim <= 1, f"unexpected X.shape: {X.shape}"
-        assert jnp.issubdtype(X.dtype, jnp.integer), f"expected an integer dtype, got {X.dtype}"
-        low, high = float(self.space_orig.low), float(self.space_orig.high)
-        return jax.nn.one_hot(jnp.floor((X - low) * self.num_bins / (high - low)), self.num_bins)
+        bins = jnp.floor((X - self.low) * self.num_bins / (self.high - self.low)).astype('int32')
+        bins = jnp.clip(bins, 0, self.num_bins - 1)  # the last bin includes its right boundary
+        return jax.nn.one_hot(bins, self.num_bins).reshape(-1, self.num_bins)
 
     def postprocess_variate(self, rng, X, index=0, batch_mode=False):
         # map almost-one-hot vectors to bin-indices (ints)
-- 
2.43.0


From d18eb6a3a3998c55b612d0c7262bee7e473aba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:06 +0000
Subject: [PATCH 26/55] fix: logloss_sign must not overflow

---
 coax/value_losses/_losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/value_losses/_losses.py b/coax/value_losses/_losses.py
index 8162f46..16bb415 100644
--- a/coax/value_losses/_losses.py
+++ b/coax/value_losses/_losses.py
@@ -173,7 +173,7 @@ def logloss_sign(y_true_sign, logits, w=None):
         The loss averaged over the batch.
 
     """
-    loss = jnp.log(1.0 + jnp.exp(-y_true_sign * logits))
+    loss = jnp.logaddexp(0., -y_true_sign * logits)
     return _mean_with_weights(loss, w)
 
 
-- 
2.43.0


From 861cf17242de06b50e1a3950c00dbdaa2c3629ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:06 +0000
Subject: [PATCH 27/55] fix: logloss of a perfect prediction must be zero

---
 coax/value_losses/_losses.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/value_losses/_losses.py b/coax/value_losses/_losses.py
index 16bb415..98e554a 100644
--- a/coax/value_losses/_losses.py
+++ b/coax/value_losses/_losses.py
@@ -132,7 +132,8 @@ def logloss(y_true, y_pred, w=None):
         The loss averaged over the batch.
 
     """
-    loss = -y_true * jnp.log(y_pred) - (1. - y_true) * jnp.log(1. - y_pred)
+    xlogy = jax.scipy.special.xlogy  # such that 0 * log(0) = 0
+    loss = -xlogy(y_true, y_pred) - xlogy(1. - y_true, 1. - y_pred)
     return _mean_with_weights(loss, w)
 
 
-- 
2.43.0


From 8e3e4685fca8bbda9c9b090ee9d2de09b83b559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:14 +0000
Subject: [PATCH 28/55] fix: PolicyObjective.optimizer must be settable

---
 coax/policy_objectives/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/policy_objectives/_base.py b/coax/policy_objectives/_base.py
index ff31a6b..02ba750 100644
--- a/coax/policy_objectives/_base.py
+++ b/coax/policy_objectives/_base.py
@@ -107,7 +107,7 @@ class PolicyObjective:
     @optimizer.setter
     def optimizer(self, new_optimizer):
         new_optimizer_state_structure = jax.tree_util.tree_structure(
-            new_optimizer.init(self._f.params))
+            new_optimizer.init(self._pi.params))
         if new_optimizer_state_structure != jax.tree_util.tree_structure(self.optimizer_state):
             raise AttributeError("cannot set optimizer attr: mismatch in optimizer_state structure")
         self._optimizer = new_optimizer
-- 
2.43.0


From ad422721fd9c2385c32a92c1b926abfd5d3920b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:14 +0000
Subject: [PATCH 29/55] fix: regularizers must accept functions of state and
 action

---
 coax/regularizers/_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coax/regularizers/_base.py b/coax/regularizers/_base.py
index 28cf0d9..0b849f5 100644
--- a/coax/regularizers/_base.py
+++ b/coax/regularizers/_base.py
@@ -74,8 +74,9 @@ class Regularizer:
                 if isinstance(self.f, BaseStochasticFuncType1):
                     S = self.f.observation_preprocessor(next(rngs), transition_batch.S)
                     A = self.f.action_preprocessor(next(rngs), transition_batch.A)
-                    dist_params, _ = self.f.function(params, state, next(rngs), S, A, False)
-                if isinstance(self.f, BaseStochasticFuncType2):
+                    dist_params, _ = self.f.function_type1(
+                        params, state, next(rngs), S, A, False)
+                elif isinstance(self.f, BaseStochasticFuncType2):
                     S = self.f.observation_preprocessor(next(rngs), transition_batch.S)
                     dist_params, _ = self.f.function(params, state, next(rngs), S, False)
                 else:
-- 
2.43.0


From 7c5159247d77951772002e54ae05a71b62010250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:14 +0000
Subject: [PATCH 30/55] fix: n-step entropy discount for unsorted time indices

---
 coax/regularizers/_nstep_entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/regularizers/_nstep_entropy.py b/coax/regularizers/_nstep_entropy.py
index c7eff80..8bfcfe6 100644
--- a/coax/regularizers/_nstep_entropy.py
+++ b/coax/regularizers/_nstep_entropy.py
@@ -52,7 +52,7 @@ class NStepEntropyRegularizer(EntropyRegularizer):
         self._n = jnp.array(n)
         self.beta = beta
         self.gamma = gamma
-        self._gammas = jnp.take(jnp.power(self.gamma, jnp.arange(self.n[-1] + 1)), self._n)
+        self._gammas = jnp.power(self.gamma, self._n)
 
         def entropy(dist_params, dones):
             valid = self.valid_from_done(dones)
-- 
2.43.0


From 48fe243d739a5cd3010f5bb3d22755ed6d648f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:14 +0000
Subject: [PATCH 31/55] fix: n-step entropy for categorical policies

---
 coax/regularizers/_nstep_entropy.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/coax/regularizers/_nstep_entropy.py b/coax/regularizers/_nstep_entropy.py
index 8bfcfe6..72c82e4 100644
--- a/coax/regularizers/_nstep_entropy.py
+++ b/coax/regularizers/_nstep_entropy.py
@@ -60,11 +60,9 @@ class NStepEntropyRegularizer(EntropyRegularizer):
             return jnp.sum(vf(dist_params, valid, self._gammas), axis=0)
 
         def function(dist_params, dones, beta):
-            assert len(dist_params) == 2
             return -beta * entropy(dist_params, dones)
 
         def metrics(dist_params, dones, beta):
-            assert len(dist_params) == 2
             valid = self.valid_from_done(dones)
             return {
                 'EntropyRegularizer/beta': beta,
-- 
2.43.0


From ad573a45966135f5343c5ba9dfcfd31a083a54ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:33 +0000
Subject: [PATCH 32/55] fix: n-step entropy must not count steps after the end
 of the episode

---
 coax/regularizers/_nstep_entropy.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/coax/regularizers/_nstep_entropy.py b/coax/regularizers/_nstep_entropy.py
index 72c82e4..e8f7415 100644
--- a/coax/regularizers/_nstep_entropy.py
+++ b/coax/regularizers/_nstep_entropy.py
@@ -55,7 +55,7 @@ class NStepEntropyRegularizer(EntropyRegularizer):
         self._gammas = jnp.power(self.gamma, self._n)
 
         def entropy(dist_params, dones):
-            valid = self.valid_from_done(dones)
+            valid = jnp.take(self.valid_from_done(dones), self._n, axis=0)
             vf = jax.vmap(lambda p, v, gamma: gamma * self.f.proba_dist.entropy(p) * v)
             return jnp.sum(vf(dist_params, valid, self._gammas), axis=0)
 
@@ -63,11 +63,11 @@ class NStepEntropyRegularizer(EntropyRegularizer):
             return -beta * entropy(dist_params, dones)
 
         def metrics(dist_params, dones, beta):
-            valid = self.valid_from_done(dones)
+            valid = jnp.take(self.valid_from_done(dones), self._n, axis=0)
             return {
                 'EntropyRegularizer/beta': beta,
                 'EntropyRegularizer/entropy': jnp.mean(entropy(dist_params, dones) /
-                                                       jnp.sum(valid, axis=0))
+                                                       jnp.maximum(jnp.sum(valid, axis=0), 1))
             }
 
         self._function = jit(function)
@@ -98,7 +98,6 @@ class NStepEntropyRegularizer(EntropyRegularizer):
                     raise TypeError(
                         "f must be derived from BaseStochasticFuncType2")
                 dones = jnp.stack(transition_batch.extra_info['dones'])
-                dones = jnp.take(dones, self._n, axis=0)
 
                 return self.function(dist_params,
                                      dones,
-- 
2.43.0


From 747b056c7e14aae76cf694a34a8fc81094bf6be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:12 +0000
Subject: [PATCH 33/55] fix: deterministic and soft policy gradients must undo
 the value transform of q_targ

---
 coax/policy_objectives/_deterministic_pg.py | 1 +
 coax/policy_objectives/_soft_pg.py          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/coax/policy_objectives/_deterministic_pg.py b/coax/policy_objectives/_deterministic_pg.py
index a990cb1..85890ee 100644
--- a/coax/policy_objectives/_deterministic_pg.py
+++ b/coax/policy_objectives/_deterministic_pg.py
@@ -102,6 +102,7 @@ class DeterministicPG(PolicyObjective):
             Q = self.q_targ.proba_dist.postprocess_variate(next(rngs), Q, batch_mode=True)
         else:
             Q, _ = self.q_targ.function_type1(params_q, state_q, next(rngs), S, A, True)
+        Q = self.q_targ.value_transform.inverse_func(Q)
 
         # clip importance weights to reduce variance
         W = jnp.clip(transition_batch.W, 0.1, 10.)
diff --git a/coax/policy_objectives/_soft_pg.py b/coax/policy_objectives/_soft_pg.py
index 0314eaa..1fc58c0 100644
--- a/coax/policy_objectives/_soft_pg.py
+++ b/coax/policy_objectives/_soft_pg.py
@@ -43,6 +43,7 @@ class SoftPG(PolicyObjective):
                 Q = q_targ.proba_dist.postprocess_variate(next(rngs), Q, batch_mode=True)
             else:
                 Q, _ = q_targ.function_type1(params_q, state_q, next(rngs), S, A, True)
+            Q = q_targ.value_transform.inverse_func(Q)
             Q_sa_list.append(Q)
         # take the min to mitigate over-estimation
         Q_sa_next_list = jnp.stack(Q_sa_list, axis=-1)
-- 
2.43.0


From 3a5a542b099532c9b1c473fded285a20f2bb95e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:39 +0000
Subject: [PATCH 34/55] fix: TrainMonitor.get_counters must return a snapshot

---
 coax/wrappers/_train_monitor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coax/wrappers/_train_monitor.py b/coax/wrappers/_train_monitor.py
index 884da73..797070a 100644
--- a/coax/wrappers/_train_monitor.py
+++ b/coax/wrappers/_train_monitor.py
@@ -1,5 +1,6 @@
 import os
 import re
+import copy
 import datetime
 import logging
 import time
@@ -367,7 +368,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
             The dict that contains the counters.
 
         """
-        return {k: getattr(self, k) for k in self._COUNTER_ATTRS}
+        return {k: copy.deepcopy(getattr(self, k)) for k in self._COUNTER_ATTRS}
 
     def set_counters(self, counters):
         r"""
@@ -383,7 +384,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
         """
         if not (isinstance(counters, dict) and set(counters) == set(self._COUNTER_ATTRS)):
             raise TypeError(f"invalid counters dict: {counters}")
-        self.__setstate__(counters)
+        self.__setstate__(copy.deepcopy(counters))
 
     def save_counters(self, filepath):
         r"""
-- 
2.43.0


From 969386a533b8719e55559ef721aaabe550340bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:40 +0000
Subject: [PATCH 35/55] fix: TrainMonitor.reset must pass keyword arguments on
 to the environment

---
 coax/wrappers/_train_monitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/wrappers/_train_monitor.py b/coax/wrappers/_train_monitor.py
index 797070a..ba5deb3 100644
--- a/coax/wrappers/_train_monitor.py
+++ b/coax/wrappers/_train_monitor.py
@@ -168,7 +168,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
         self._ep_actions = StreamingSample(maxlen=1000)
         self._period = {'T': {}, 'ep': {}}
 
-    def reset(self):
+    def reset(self, **kwargs):
         # write logs from previous episode:
         if self.ep:
             self._write_episode_logs()
@@ -184,7 +184,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
         self._ep_metrics = {}
         self._ep_actions.reset()
 
-        return self.env.reset()
+        return self.env.reset(**kwargs)
 
     @property
     def dt_ms(self):
-- 
2.43.0


From 37ba90bd95474efda2c5a2f408e94848d2769dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:40 +0000
Subject: [PATCH 36/55] fix: restored counters must also restore the
 tensorboard directory

---
 coax/wrappers/_train_monitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/wrappers/_train_monitor.py b/coax/wrappers/_train_monitor.py
index ba5deb3..49fd87c 100644
--- a/coax/wrappers/_train_monitor.py
+++ b/coax/wrappers/_train_monitor.py
@@ -353,8 +353,10 @@ class TrainMonitor(Wrapper, LoggerMixin):
         return state
 
     def __setstate__(self, state):
+        state = dict(state)
+        tensorboard_dir = state.pop('_tensorboard_dir')
         self.__dict__.update(state)
-        self._init_tensorboard(state['_tensorboard_dir'])
+        self._init_tensorboard(tensorboard_dir)
 
     def get_counters(self):
         r"""
-- 
2.43.0


From 90bf52e79f0586406e01b11d6d3ca4288ee5117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:09 +0000
Subject: [PATCH 37/55] fix: MetaPolicyEnv.step must not use the removed
 inspect.getargspec

---
 coax/wrappers/_meta_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/wrappers/_meta_policy.py b/coax/wrappers/_meta_policy.py
index 02a9cc6..b91fcbf 100644
--- a/coax/wrappers/_meta_policy.py
+++ b/coax/wrappers/_meta_policy.py
@@ -43,7 +43,7 @@ class MetaPolicyEnv(gymnasium.Wrapper):
         assert self._s is not None, "please call env.reset() first"
 
         pi = self.arms[a_meta]
-        if 'return_logp' in inspect.getargspec(pi).args:
+        if 'return_logp' in inspect.signature(pi).parameters:
             a, logp = pi(self._s, return_logp=True)
         else:
             a, logp = pi(self._s), 0.
-- 
2.43.0


From ffb86c082c47464a8b60fd7b27e7725c035376b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:09 +0000
Subject: [PATCH 38/55] fix: MetaPolicyEnv.reset must pass keyword arguments on
 to the environment

---
 coax/wrappers/_meta_policy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/wrappers/_meta_policy.py b/coax/wrappers/_meta_policy.py
index b91fcbf..20d9f84 100644
--- a/coax/wrappers/_meta_policy.py
+++ b/coax/wrappers/_meta_policy.py
@@ -34,8 +34,8 @@ class MetaPolicyEnv(gymnasium.Wrapper):
         self.action_space = gymnasium.spaces.Discrete(len(arms))
         self._s = None
 
-    def reset(self):
-        self._s, info = self.env.reset()
+    def reset(self, **kwargs):
+        self._s, info = self.env.reset(**kwargs)
         return self._s, info
 
     def step(self, a_meta):
-- 
2.43.0


From 87d45ab96b0c633fb2c3790757d9cfd58cd332cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:09 +0000
Subject: [PATCH 39/55] fix: box-action wrappers must feed elements of the
 original action space

---
 coax/wrappers/_box_spaces.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coax/wrappers/_box_spaces.py b/coax/wrappers/_box_spaces.py
index 4ebd4c0..0d5a060 100644
--- a/coax/wrappers/_box_spaces.py
+++ b/coax/wrappers/_box_spaces.py
@@ -50,7 +50,8 @@ class BoxActionsToReals(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         hi, lo = self.env.action_space.high, self.env.action_space.low
         action = onp.clip(action, -1e15, 1e15)
         action = onp.reshape(action, self.env.action_space.shape)
-        return lo + (hi - lo) * sigmoid(action)
+        action = lo + (hi - lo) * sigmoid(action)
+        return onp.clip(action, lo, hi).astype(self.env.action_space.dtype)
 
 
 class BoxActionsToDiscrete(gymnasium.Wrapper, AddOrigToInfoDictMixin):
@@ -92,7 +93,7 @@ class BoxActionsToDiscrete(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         a_flat = (a_discrete + self._rnd.rand(self._size)) / self._nvec
         a_reshaped = onp.reshape(a_flat, self.env.action_space.shape)
         a_rescaled = lo + a_reshaped * (hi - lo)
-        return a_rescaled
+        return onp.clip(a_rescaled, lo, hi).astype(self.env.action_space.dtype)
 
     def _init_action_space(self, num_bins):
         self._size = onp.prod(self.env.action_space.shape)
-- 
2.43.0


From 2733c192d2784eac50ed9200d170cc0ad37a51cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:30 +0000
Subject: [PATCH 40/55] fix: ConnectFourEnv.set_state must not use a private
 numpy function

---
 coax/envs/_connect_four.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/envs/_connect_four.py b/coax/envs/_connect_four.py
index 29fb9b1..e2cee96 100644
--- a/coax/envs/_connect_four.py
+++ b/coax/envs/_connect_four.py
@@ -254,7 +254,7 @@ class ConnectFourEnv(Env):
         self._players[1] = 3 - p  # 2 or 1
         self.done = d == 1
         self._prev_action = None if a == self.num_cols else a
-        s = np._base_repr(int(state_id[3:], 16), 3)
+        s = np.base_repr(int(state_id[3:], 16), 3)
         z = np.zeros(self.num_rows * self.num_cols, dtype='uint8')
         z[-len(s):] = np.array(list(s), dtype='uint8')
         self._state = z.reshape((self.num_rows, self.num_cols))
-- 
2.43.0


From c87d559f05e25e7c9fe27c9ae6f4bb08e662060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:30 +0000
Subject: [PATCH 41/55] fix: ConnectFourEnv.render with numpy actions

---
 coax/envs/_connect_four.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/envs/_connect_four.py b/coax/envs/_connect_four.py
index e2cee96..3f18634 100644
--- a/coax/envs/_connect_four.py
+++ b/coax/envs/_connect_four.py
@@ -204,7 +204,7 @@ class ConnectFourEnv(Env):
         hrule = '+---' * self.num_cols + '+\n'
         board = "  "
         board += "   ".join(
-            symbol.get(-(a == self._prev_action) * self._players[1], " ")
+            symbol.get(-int(a == self._prev_action) * int(self._players[1]), " ")
             for a in range(self.num_cols))
         board += "  \n"
         board += hrule
-- 
2.43.0


From d327e053d63c71303dc84f6d8f4eb45f03a36524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:31 +0000
Subject: [PATCH 42/55] fix: ConnectFourEnv observations must be relative to
 the player whose turn it is

---
 coax/envs/_connect_four.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coax/envs/_connect_four.py b/coax/envs/_connect_four.py
index 3f18634..c72588c 100644
--- a/coax/envs/_connect_four.py
+++ b/coax/envs/_connect_four.py
@@ -176,15 +176,15 @@ class ConnectFourEnv(Env):
         if a not in self.available_actions:
             raise UnavailableActionError("action is not available")
 
-        # swap players
-        self._players = np.roll(self._players, -1)
-
         # update state
         self._state[self._levels[a], a] = self._players[0]
         self._prev_action = a
 
         # run logic
         self.done, reward = self._done_reward(a)
+
+        # swap players
+        self._players = np.roll(self._players, -1)
         return self.state, reward, self.done, {'state_id': self.state_id}
 
     def render(self, *args, **kwargs):
-- 
2.43.0


From a73b4004d307ef033cce2402a96e16dfab590607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:41 +0000
Subject: [PATCH 43/55] fix: OrnsteinUhlenbeckNoise must clip the action, not
 the noise

---
 coax/utils/_action_noise.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/coax/utils/_action_noise.py b/coax/utils/_action_noise.py
index 909e413..aa4b01b 100644
--- a/coax/utils/_action_noise.py
+++ b/coax/utils/_action_noise.py
@@ -106,5 +106,4 @@ class OrnsteinUhlenbeckNoise:
 
         white_noise = onp.asarray(self.rnd.randn(*a.shape), dtype=a.dtype)
         self._noise += self.theta * (self.mu - self._noise) + self.sigma * white_noise
-        self._noise = onp.clip(self._noise, self.min_value, self.max_value)
-        return a + self._noise
+        return onp.clip(a + self._noise, self.min_value, self.max_value)
-- 
2.43.0


From f9562be74a038b87b5143e48a34af5e4ec7969fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:41 +0000
Subject: [PATCH 44/55] fix: ModelUpdater must compare like with like for
 stochastic reward functions

---
 coax/model_updaters/_model_updater.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coax/model_updaters/_model_updater.py b/coax/model_updaters/_model_updater.py
index fc52d7e..6a57c5a 100644
--- a/coax/model_updaters/_model_updater.py
+++ b/coax/model_updaters/_model_updater.py
@@ -85,6 +85,8 @@ class ModelUpdater:
                 y_true = self.model.observation_preprocessor(next(rngs), transition_batch.S_next)
             elif is_reward_function(self.model):
                 y_true = self.model.value_transform.transform_func(transition_batch.Rn)
+                if is_stochastic(self.model):
+                    y_true = self.model.proba_dist.preprocess_variate(next(rngs), y_true)
             else:
                 raise AssertionError(f"unexpected model type: {type(self.model)}")
 
-- 
2.43.0


From 8daab072ee47e2327e86dfcf1be705c993bb66c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:41 +0000
Subject: [PATCH 45/55] fix: safe_sample must return an element of the Box

---
 coax/utils/_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_array.py b/coax/utils/_array.py
index e52626a..69c96bd 100644
--- a/coax/utils/_array.py
+++ b/coax/utils/_array.py
@@ -806,7 +806,8 @@ def _safe_sample(space, rnd):
         low = onp.clip(space.low, -1e9, 1e9)
         high = onp.clip(space.high, -1e9, 1e9)
         x = low + rnd.rand(*space.shape) * (high - low)
-        return onp.sign(x) * onp.log(1. + onp.abs(x))  # log transform to avoid very large numbers
+        x = onp.sign(x) * onp.log(1. + onp.abs(x))  # log transform to avoid very large numbers
+        return onp.clip(x, space.low, space.high).astype(space.dtype)
 
     if isinstance(space, gymnasium.spaces.Tuple):
         return tuple(_safe_sample(sp, rnd) for sp in space.spaces)
-- 
2.43.0


From 144999863a002dcdc2cb37bf7bf40f081db32fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:41 +0000
Subject: [PATCH 46/55] fix: argmin must work for unsigned integers and
 array-likes

---
 coax/utils/_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_array.py b/coax/utils/_array.py
index 69c96bd..9ea1a84 100644
--- a/coax/utils/_array.py
+++ b/coax/utils/_array.py
@@ -110,7 +110,8 @@ def argmin(rng, arr, axis=-1):
         with the dimension along `axis` removed.
 
     """
-    return argmax(rng, -arr, axis=axis)
+    arr = jnp.asarray(arr)
+    return argmax(rng, arr == jnp.min(arr, axis=axis, keepdims=True), axis=axis)
 
 
 def batch_to_single(pytree, index=0):
-- 
2.43.0


From 30aff50af0e490935241753cb4a0d145d4e9c877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:41 +0000
Subject: [PATCH 47/55] fix: render_episode must use the gymnasium API

---
 coax/utils/_misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coax/utils/_misc.py b/coax/utils/_misc.py
index ec77de3..0583e9f 100644
--- a/coax/utils/_misc.py
+++ b/coax/utils/_misc.py
@@ -342,17 +342,17 @@ def render_episode(env, policy=None, step_delay_ms=0):
     if isinstance(env, TrainMonitor):
         env = env.env  # unwrap to strip off TrainMonitor
 
-    s = env.reset()
+    s, info = env.reset()
     env.render()
 
     for t in range(int(1e9)):
         a = env.action_space.sample() if policy is None else policy(s)
-        s_next, r, done, info = env.step(a)
+        s_next, r, done, truncated, info = env.step(a)
 
         env.render()
         time.sleep(step_delay_ms / 1e3)
 
-        if done:
+        if done or truncated:
             break
 
         s = s_next
-- 
2.43.0


From 1a57107f2eded3b172d001d2175362a669647072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:41 +0000
Subject: [PATCH 48/55] fix: generate_gif must default to 10000 steps if the
 env has no step limit

---
 coax/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/utils/_misc.py b/coax/utils/_misc.py
index 0583e9f..e2c9ffb 100644
--- a/coax/utils/_misc.py
+++ b/coax/utils/_misc.py
@@ -466,7 +466,7 @@ def generate_gif(env, filepath, policy=None, resize_to=None, duration=50, max_ep
     """
     logger = logging.getLogger('generate_gif')
     max_episode_steps = max_episode_steps \
-        or getattr(getattr(env, 'spec'), 'max_episode_steps', 10000)
+        or getattr(getattr(env, 'spec'), 'max_episode_steps', None) or 10000
 
     from ..wrappers import TrainMonitor
     if isinstance(env, TrainMonitor):
-- 
2.43.0


From bb8a2aaadb5e3b70d5adc6402d20c56ff1a6087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:23 +0000
Subject: [PATCH 49/55] fix: DoubleQLearning evaluates q with q's own
 preprocessor and transform

---
 coax/td_learning/_doubleqlearning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/td_learning/_doubleqlearning.py b/coax/td_learning/_doubleqlearning.py
index 9e52e14..6ac8562 100644
--- a/coax/td_learning/_doubleqlearning.py
+++ b/coax/td_learning/_doubleqlearning.py
@@ -128,11 +128,11 @@ class DoubleQLearning(BaseTDLearningQWithTargetPolicy):
 
         # evaluate on q (instead of q_targ)
         params, state = target_params['q'], target_state['q']
-        S_next = self.q_targ.observation_preprocessor(next(rngs), transition_batch.S_next)
+        S_next = self.q.observation_preprocessor(next(rngs), transition_batch.S_next)
 
         if is_stochastic(self.q):
             return self._get_target_dist_params(params, state, next(rngs), transition_batch, A_next)
 
         Q_sa_next, _ = self.q.function_type1(params, state, next(rngs), S_next, A_next, False)
-        f, f_inv = self.q.value_transform.transform_func, self.q_targ.value_transform.inverse_func
+        f, f_inv = self.q.value_transform.transform_func, self.q.value_transform.inverse_func
         return f(transition_batch.Rn + transition_batch.In * f_inv(Q_sa_next))
-- 
2.43.0


From 5e5ecf22ac55276049a4ab4a18ac1fe91c610389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:52 +0000
Subject: [PATCH 50/55] fix: SquashedNormalDist.log_proba must handle Box
 spaces of any shape

---
 coax/proba_dists/_squashed_normal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/proba_dists/_squashed_normal.py b/coax/proba_dists/_squashed_normal.py
index 152ca7d..bdab602 100644
--- a/coax/proba_dists/_squashed_normal.py
+++ b/coax/proba_dists/_squashed_normal.py
@@ -56,7 +56,8 @@ class SquashedNormalDist(BaseProbaDist):
             X = (X - self._offset) / self._scale
             X = jnp.arctanh(jnp.clip(X, a_min=-1.0 + arctanh_eps, a_max=1.0 - arctanh_eps))
             logp = self._normal_dist.log_proba(dist_params, X)
-            logp -= jnp.sum(2 * (jnp.log(2) - X - jnp.log(1 + jnp.exp(-2 * X))), axis=-1)
+            logdet = 2 * (jnp.log(2) - X - jnp.log(1 + jnp.exp(-2 * X)))
+            logp -= jnp.sum(jnp.reshape(logdet, (logdet.shape[0], -1)), axis=-1)
             return logp - jnp.sum(jnp.log(self._scale))
 
         self._sample_func = jax.jit(sample)
-- 
2.43.0


From 3d89cb8764ec897c7f0ed983da56c2fc992277c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:52 +0000
Subject: [PATCH 51/55] fix: SquashedNormalDist.postprocess_variate must return
 an element of the Box

---
 coax/proba_dists/_squashed_normal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/coax/proba_dists/_squashed_normal.py b/coax/proba_dists/_squashed_normal.py
index bdab602..751eb7c 100644
--- a/coax/proba_dists/_squashed_normal.py
+++ b/coax/proba_dists/_squashed_normal.py
@@ -78,7 +78,11 @@ class SquashedNormalDist(BaseProbaDist):
     def postprocess_variate(self, rng, X, index=0, batch_mode=False):
         X = jnp.asarray(X, dtype=self.space.dtype)                    # ensure ndarray
         X = jnp.reshape(X, (-1, *self.space.shape))                   # ensure correct shape
-        return X if batch_mode else onp.asanyarray(X[index])
+        X = jnp.clip(X, self.space.low, self.space.high)              # undo rounding errors
+        if batch_mode:
+            return X
+        x = onp.asarray(X[index], dtype=self.space.dtype)
+        return onp.asanyarray(onp.clip(x, self.space.low, self.space.high))
 
     @property
     def sample(self):
-- 
2.43.0


From 38bc4587e8b5051cb9560dfcefd3815d1eb0d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:52 +0000
Subject: [PATCH 52/55] fix: make_dmc must honour its arguments on every call

---
 coax/utils/_dmc_gym.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coax/utils/_dmc_gym.py b/coax/utils/_dmc_gym.py
index d112b4c..e2c68d6 100644
--- a/coax/utils/_dmc_gym.py
+++ b/coax/utils/_dmc_gym.py
@@ -36,10 +36,10 @@ def make_dmc(domain, task, seed=0, max_episode_steps=1000, height=84, width=84,
     """
     env_id = f"{domain}_{task}-v1"
     if env_id not in registry:
-        register(env_id, entry_point=DmcGymWrapper, kwargs=dict(
-            domain=domain, task=task, seed=seed, height=height, width=width, camera_id=camera_id),
-            max_episode_steps=max_episode_steps)
-    return make(env_id)
+        register(env_id, entry_point=DmcGymWrapper, kwargs=dict(domain=domain, task=task))
+    return make(
+        env_id, max_episode_steps=max_episode_steps,
+        seed=seed, height=height, width=width, camera_id=camera_id)
 
 
 class DmcGymWrapper(Env):
-- 
2.43.0


From 0258ba2d60cfd88fe5ea739fcc9ecd79459022b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 53/55] fix: StochasticQ.num_bins for quantile functions

---
 coax/_core/stochastic_q.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coax/_core/stochastic_q.py b/coax/_core/stochastic_q.py
index 36e18d5..d9b6554 100644
--- a/coax/_core/stochastic_q.py
+++ b/coax/_core/stochastic_q.py
@@ -106,6 +106,8 @@ class StochasticQ(BaseStochasticFuncType1):
 
     @property
     def num_bins(self):
+        if isinstance(self.proba_dist, EmpiricalQuantileDist):
+            return self.proba_dist.num_quantiles
         return self.proba_dist.space.n
 
     @classmethod
-- 
2.43.0


From 28da80a2bcd8bc8cfcaf5c8ec8d3acaa44e3aea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:52 +0000
Subject: [PATCH 54/55] fix: ProbaDist.affine_transform accepts a
 value_transform

---
 coax/proba_dists/_composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/proba_dists/_composite.py b/coax/proba_dists/_composite.py
index 74d78aa..d889df2 100644
--- a/coax/proba_dists/_composite.py
+++ b/coax/proba_dists/_composite.py
@@ -204,7 +204,7 @@ class ProbaDist(BaseProbaDist):
         self._entropy_func = jit(entropy)
         self._cross_entropy_func = jit(cross_entropy)
         self._kl_divergence_func = jit(kl_divergence)
-        self._affine_transform_func = jit(affine_transform)
+        self._affine_transform_func = affine_transform  # not jitted: value_transform isn't a jax type
 
     @property
     def hyperparams(self):
-- 
2.43.0


From 733d997d7fbbca9be912fa9d4ab85835965fad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:09 +0000
Subject: [PATCH 55/55] fix: let tree_sample sample along the axis it is given

---
 coax/utils/_array.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/coax/utils/_array.py b/coax/utils/_array.py
index 9ea1a84..c073109 100644
--- a/coax/utils/_array.py
+++ b/coax/utils/_array.py
@@ -1005,9 +1005,9 @@ def tree_sample(pytree, rng, n=1, replace=False, axis=0, p=None):
         A single flat array.
 
     """
-    batch_size = _check_leaf_batch_size(pytree)
+    batch_size = _check_leaf_batch_size(pytree, axis)
     ix = jax.random.choice(rng, batch_size, shape=(n,), replace=replace, p=p)
-    return jax.tree_map(lambda x: jnp.take(x, ix, axis=0), pytree)
+    return jax.tree_map(lambda x: jnp.take(x, ix, axis=axis), pytree)
 
 
 def unvectorize(f, in_axes=0, out_axes=0):
@@ -1113,20 +1113,20 @@ def unvectorize(f, in_axes=0, out_axes=0):
     return f_single
 
 
-def _check_leaf_batch_size(pytree):
+def _check_leaf_batch_size(pytree, axis=0):
     """ some boilerplate to extract the batch size with some consistency checks """
     leaf, *leaves = jax.tree_util.tree_leaves(pytree)
     if not isinstance(leaf, (onp.ndarray, jnp.ndarray)) and leaf.ndim >= 1:
         raise TypeError(f"all leaves must be arrays; got type: {type(leaf)}")
     if leaf.ndim < 1:
         raise TypeError("all leaves must be at least 1d, i.e. (batch_size, ...)")
-    batch_size = leaf.shape[0]
+    batch_size = leaf.shape[axis]
     for leaf in leaves:
         if not isinstance(leaf, (onp.ndarray, jnp.ndarray)) and leaf.ndim >= 1:
             raise TypeError(f"all leaves must be arrays; got type: {type(leaf)}")
         if leaf.ndim < 1:
             raise TypeError("all leaves must be at least 1d, i.e. (batch_size, ...)")
-        if leaf.shape[0] != batch_size:
+        if leaf.shape[axis] != batch_size:
             raise TypeError("all leaves must have the same batch_size")
     return batch_size
 
-- 
2.43.0

