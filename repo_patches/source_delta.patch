From b2719f027748b851fee1be04555bcea21b433a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 01/15] fix: masked tests params for None instead of truthiness

A bare array of parameters (or an empty container) was rejected or dropped.
---
 optax/_src/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index d37ff78..820ead0 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -323,7 +323,7 @@ def masked(
     flat_updates = treedef.flatten_up_to(updates)
     masked_updates = [g for g, m in zip(flat_updates, flat_mask) if m]
 
-    if params:
+    if params is not None:
       flat_params = treedef.flatten_up_to(params)
       masked_params = [p for p, m in zip(flat_params, flat_mask) if m]
     else:
-- 
2.43.0


From 9d117ac79422ca0bd3fa19af4ca3c786b8db3196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 02/15] fix: lookahead hands the fast parameters to the fast
 optimizer

Fast optimizers that read the parameters (e.g. adamw) were given the
fast/slow pair instead of the fast parameters.
---
 optax/_src/lookahead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 7f84f2b..1f6ec30 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -114,7 +114,7 @@ def lookahead(
       updates: base.Updates, state: LookaheadState,
       params: LookaheadParams) -> Tuple[LookaheadParams, LookaheadState]:
     updates, fast_state = fast_optimizer.update(updates, state.fast_state,
-                                                params)
+                                                params.fast)
 
     sync_next = (state.steps_since_sync == sync_period - 1)
     updates = _lookahead_update(updates, sync_next, params, slow_step_size)
-- 
2.43.0


From 4be76da32caa72d70a48b926a78012b8f50438da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 03/15] fix: MultiSteps passes params on to the wrapped
 optimiser

Optimisers that need the parameters (e.g. adamw, lamb) could not be wrapped.
---
 optax/_src/wrappers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index 820ead0..afa044a 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -229,7 +229,6 @@ class MultiSteps:
 
   def update(self, grads: Any, state: MultiStepsState, params: Any = None):
     """Accumulates gradients and proposes non-zero updates every `k_steps`."""
-    del params
     k_steps = self._every_k_schedule(state.gradient_step)
     acc_grads = jax.tree_util.tree_multimap(lambda a, b: a + b, grads,
                                             state.acc_grads)
@@ -241,7 +240,7 @@ class MultiSteps:
       else:
         grads_for_update = acc_grads
       updates, new_inner_state = self._opt.update(
-          grads_for_update, state.inner_opt_state)
+          grads_for_update, state.inner_opt_state, params)
       new_state = MultiStepsState(mini_step=jnp.zeros([], dtype=jnp.int64),
                                   gradient_step=state.gradient_step + 1,
                                   inner_opt_state=new_inner_state,
-- 
2.43.0


From ba5dd7bec4c2991716d1c7b24f798eac64b8f184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 04/15] fix: add_noise scales its noise by the standard
 deviation

The documented variance eta / count**gamma was used as the standard deviation.
---
 optax/_src/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 8f5a6ad..14e6150 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -639,7 +639,7 @@ def add_noise(
         lambda g, k: jax.random.normal(k, shape=g.shape, dtype=g.dtype),
         updates, jax.tree_unflatten(treedef, all_keys[1:]))
     updates = jax.tree_multimap(
-        lambda g, n: g + variance.astype(g.dtype) * n,
+        lambda g, n: g + jnp.sqrt(variance).astype(g.dtype) * n,
         updates, noise)
     return updates, AddNoiseState(count=count_inc, rng_key=all_keys[0])
 
-- 
2.43.0


From c97765a739ddfd0073b08263eb6944b25bad47af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 05/15] fix: piecewise_interpolate_schedule with a boundary at
 step zero

The empty first interval divided zero by zero, and the NaN then reached the
value returned for every count.
---
 optax/_src/schedule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index 0503bd0..309a5c9 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -280,6 +280,8 @@ def piecewise_interpolate_schedule(
   bounds = jnp.stack((0,) + boundaries)
   values = jnp.cumprod(jnp.stack((init_value,) + scales))
   interval_sizes = (bounds[1:] - bounds[:-1])
+  # An empty interval is never selected, but must not divide by zero.
+  interval_sizes = jnp.where(interval_sizes == 0, 1, interval_sizes)
 
   def schedule(count):
     indicator = (bounds[:-1] <= count) & (count < bounds[1:])
-- 
2.43.0


From 0dde3ee414477b9140bce8995931af0767c3a394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 06/15] fix: apply_every discards the previous window by
 selection

Multiplying by zero kept a NaN or Inf of one accumulation window in every
later one, and emitted it on the steps in between.
---
 optax/_src/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 14e6150..516b23c 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -679,9 +679,11 @@ def apply_every(
     c = state.count % k
     acc = c != 0
     grad_acc = jax.tree_multimap(
-        lambda g, ga: acc * ga + g, updates, state.grad_acc)
+        lambda g, ga: jnp.where(acc, ga, jnp.zeros_like(ga)) + g,
+        updates, state.grad_acc)
     emit = c == (k - 1)
-    updates = jax.tree_map(lambda ga: emit * ga, grad_acc)
+    updates = jax.tree_map(
+        lambda ga: jnp.where(emit, ga, jnp.zeros_like(ga)), grad_acc)
     count_inc = numerics.safe_int32_increment(state.count)
     return updates, ApplyEvery(count=count_inc % k, grad_acc=grad_acc)
 
-- 
2.43.0


From 71928052e8e723b19287ce65cc9dd1b6812a357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 07/15] fix: lookahead resets the fast state by selection

The arithmetic blend kept non-finite entries of the state that was meant to
be reset, and changed the dtype of unsigned (PRNG key) state.
---
 optax/_src/lookahead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 1f6ec30..58ab7ee 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -123,7 +123,7 @@ def lookahead(
       # synchronized after this update step.
       initial_state = fast_optimizer.init(params.fast)
       fast_state = jax.tree_multimap(
-          lambda current, init: (1 - sync_next) * current + sync_next * init,
+          lambda current, init: jnp.where(sync_next, init, current),
           fast_state, initial_state)
 
     steps_since_sync = (state.steps_since_sync + 1) % sync_period
-- 
2.43.0


From 4183edcfd88f0c92e4a2220d228648a4b41f33d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 08/15] fix: noisy_sgd adds its noise to the gradients

The noise was added to the updates after the learning rate was applied, so
its documented variance did not hold for the gradients.
---
 optax/_src/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/alias.py b/optax/_src/alias.py
index 2e61aa7..08625f8 100644
--- a/optax/_src/alias.py
+++ b/optax/_src/alias.py
@@ -275,8 +275,8 @@ def noisy_sgd(
     the corresponding `GradientTransformation`.
   """
   return combine.chain(
-      _scale_by_learning_rate(learning_rate),
       transform.add_noise(eta, gamma, seed),
+      _scale_by_learning_rate(learning_rate),
   )
 
 
-- 
2.43.0


From 191906818417305ea5dd832834f837122bfe1115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 09/15] fix: sm3 accepts momentum=None as documented

None was used as a decay rate in arithmetic and raised a TypeError.
---
 optax/_src/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/alias.py b/optax/_src/alias.py
index 08625f8..e7ede8f 100644
--- a/optax/_src/alias.py
+++ b/optax/_src/alias.py
@@ -431,7 +431,7 @@ def sm3(
     the corresponding `GradientTransformation`.
   """
   return combine.chain(
-      transform.scale_by_sm3(momentum),
+      transform.scale_by_sm3(momentum if momentum is not None else 0.),
       transform.scale(-learning_rate),
   )
 
-- 
2.43.0


From 709e160dcbc0d9c033097997b07c31498c0c576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 10/15] fix: ema without debiasing emits the average

---
 optax/_src/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 516b23c..68ea6f5 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -123,7 +123,7 @@ def ema(
 
   def update_fn(updates, state, params=None):
     del params
-    new_ema = _update_moment(updates, state.ema, decay, order=1)
+    updates = new_ema = _update_moment(updates, state.ema, decay, order=1)
     count_inc = utils.safe_int32_increment(state.count)
     if debias:
       updates = _bias_correction(new_ema, decay, count_inc)
-- 
2.43.0


From b3f474644480603cee2dbb97d9abde5a12cd58d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 11/15] fix: lookahead leaves the slow parameters alone between
 synchronisations

---
 optax/_src/lookahead.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 58ab7ee..ed67d8c 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -182,11 +182,12 @@ def _lookahead_update(
   #                  1 - slow_step_size) * sync_next * last_difference
   last_difference = jax.tree_multimap(lambda f, u, s: f + u - s, params.fast,
                                       updates, params.slow)
-  slow_updates = jax.tree_map(lambda diff: slow_step_size * sync_next * diff,
-                              last_difference)
-  fast_updates = jax.tree_multimap(
-      lambda up, diff: up - sync_next * (1 - slow_step_size) * diff, updates,
+  slow_updates = jax.tree_map(
+      lambda diff: jnp.where(sync_next, slow_step_size * diff, 0),
       last_difference)
+  fast_updates = jax.tree_multimap(
+      lambda up, diff: jnp.where(sync_next, up - (1 - slow_step_size) * diff, up
+                                ), updates, last_difference)
 
   return LookaheadParams(fast=fast_updates, slow=slow_updates)
 
-- 
2.43.0


From c3d04da0e647bac75ca20955ab75cc99388de857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 12/15] fix: moving_avg_baseline debiases the raw average once
 per step

---
 optax/_src/control_variates.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optax/_src/control_variates.py b/optax/_src/control_variates.py
index f2e8c46..a3feb09 100644
--- a/optax/_src/control_variates.py
+++ b/optax/_src/control_variates.py
@@ -192,6 +192,10 @@ def moving_avg_baseline(
     else:
       iteration_decay = decay
 
+    if zero_debias:
+      # The stored value is already debiased: recover the raw moving average.
+      value *= jnp.ones([]) - jnp.power(iteration_decay, i)
+
     updated_value = iteration_decay * value
     updated_value += (1 - iteration_decay) * jnp.mean(
         jax.vmap(function)(samples))
-- 
2.43.0


From d5e9bceb13d601bf41102aa30d1cef8a43f25ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 13/15] fix: matrix_inverse_pth_root raises to the requested
 power for every p

---
 optax/_src/linear_algebra.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/optax/_src/linear_algebra.py b/optax/_src/linear_algebra.py
index 5e25b0f..6f40b0d 100644
--- a/optax/_src/linear_algebra.py
+++ b/optax/_src/linear_algebra.py
@@ -142,8 +142,13 @@ def matrix_inverse_pth_root(
     return jnp.matmul(
         mat_pow_4, mat_pow_4, precision=precision)
 
+  def _looped_mat_pow(mat_m):
+    """Computes mat_m^p, for any positive integer p."""
+    return lax.fori_loop(
+        1, p, lambda _, m: jnp.matmul(m, mat_m, precision=precision), mat_m)
+
   def mat_power(mat_m, p):
-    """Computes mat_m^p, for p == 1, 2, 4 or 8.
+    """Computes mat_m^p, unrolled for p == 1, 2, 4 or 8.
 
     Args:
       mat_m: a square matrix
@@ -154,12 +159,15 @@ def matrix_inverse_pth_root(
     """
     # We unrolled the loop for performance reasons.
     exponent = jnp.round(jnp.log2(p))
+    # Any other p takes the last branch.
+    exponent = jnp.where(2**exponent == p, exponent, 4)
     return lax.switch(
         jnp.asarray(exponent, jnp.int32), [
             _unrolled_mat_pow_1,
             _unrolled_mat_pow_2,
             _unrolled_mat_pow_4,
             _unrolled_mat_pow_8,
+            _looped_mat_pow,
         ], (mat_m))
 
   def _iter_condition(state):
-- 
2.43.0


From 65b39706d5ad3ece44737cc623bcf061d3eaf246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:10 +0000
Subject: [PATCH 14/15] fix: sm3 keeps its covers in the parameters' dtype

---
 optax/_src/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 68ea6f5..d80ab93 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -747,7 +747,7 @@ def scale_by_sm3(
   """
 
   def zeros_for_dim(p):
-    return [jnp.zeros([s]) for s in p.shape]
+    return [jnp.zeros([s], dtype=p.dtype) for s in p.shape]
 
   def init_fn(params):
     mu = jax.tree_map(zeros_for_dim, params)
-- 
2.43.0


From cd67bf363b7fc411a6b422d1d935d52cb6674df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 15/15] fix: radam works under jit for half-precision gradients

---
 optax/_src/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index d80ab93..0e244d4 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -457,7 +457,9 @@ def scale_by_radam(
     nu_hat = params[2]
     r = jnp.sqrt((ro - 4)*(ro - 2)*ro_inf/((ro_inf - 4)*(ro_inf - 2)*ro))
     updates = jax.tree_multimap(
-        lambda m, v: r*m / (jnp.sqrt(v + eps_root) + eps), mu_hat, nu_hat)
+        lambda m, v: jnp.asarray(  # pylint:disable=g-long-lambda
+            r*m / (jnp.sqrt(v + eps_root) + eps), dtype=m.dtype),
+        mu_hat, nu_hat)
     return updates
 
   def init_fn(params):
-- 
2.43.0

