From 203964a44d82ff7245fa79ecc302a1403bca6801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:42 +0000
Subject: [PATCH 1/6] fix: report a non-finite iterate produced by the final
 step of a solve

---
 optimistix/_iterate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optimistix/_iterate.py b/optimistix/_iterate.py
index 7b1c94e..4076514 100644
--- a/optimistix/_iterate.py
+++ b/optimistix/_iterate.py
@@ -236,6 +236,10 @@ def _iterate(inputs):
         state = eqx.combine(static_state, dynamic_state)
         new_y, new_state, aux = solver.step(fn, y, args, options, state, tags)
         new_terminate, new_result = terminate_and_result(y, new_state)
+        # Check the iterate we've just produced too: this may be the last step.
+        new_result = RESULTS.where(
+            tree_allfinite(new_y), new_result, RESULTS.nonfinite
+        )
         new_dynamic_state, new_static_state = eqx.partition(new_state, eqx.is_array)
         assert eqx.tree_equal(static_state, new_static_state) is True
         return new_y, num_steps + 1, new_dynamic_state, aux, new_terminate, new_result
-- 
2.43.0


From c0d8b168f1625c735168e4bca221312fc1dfaff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:23 +0000
Subject: [PATCH 2/6] fix: start golden-section search inside [lower, upper]

The first interior point was computed as an offset without adding the lower
bound, so for a nonzero lower bound the objective was evaluated outside the
interval.
---
 optimistix/_solver/golden.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimistix/_solver/golden.py b/optimistix/_solver/golden.py
index bb5ca05..e04c1e7 100644
--- a/optimistix/_solver/golden.py
+++ b/optimistix/_solver/golden.py
@@ -81,7 +81,7 @@ class GoldenSearch(AbstractMinimiser[Float[Array, ""], Aux, _GoldenSearchState])
         # length a and b, respectively. The ratio of their lengths, b / a, is equal
         # to the golden ratio.
         golden_ratio = (1 + math.sqrt(5)) / 2
-        middle = (upper - lower) / (golden_ratio + 1)
+        middle = lower + (upper - lower) / (golden_ratio + 1)
 
         f_middle, _ = fn(middle, args)
 
-- 
2.43.0


From 044adf5db8679dcabf7198eae786f8cbc5ed8023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:52 +0000
Subject: [PATCH 3/6] fix: sign of the Hestenes-Stiefel and Dai-Yuan
 denominators

Both coefficients divided by minus the inner product of the previous direction
and the change in gradient, which flips the sign of beta, so the resulting
directions were not conjugate to the gradient change.
---
 optimistix/_solver/nonlinear_cg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/nonlinear_cg.py b/optimistix/_solver/nonlinear_cg.py
index 73ed02b..d9a8ecf 100644
--- a/optimistix/_solver/nonlinear_cg.py
+++ b/optimistix/_solver/nonlinear_cg.py
@@ -52,7 +52,7 @@ def hestenes_stiefel(grad: Y, grad_prev: Y, y_diff_prev: Y) -> Scalar:
     [`optimistix.NonlinearCGDescent`][]."""
     grad_diff = (grad**ω - grad_prev**ω).ω
     numerator = tree_dot(grad, grad_diff)
-    denominator = -tree_dot(y_diff_prev, grad_diff)
+    denominator = tree_dot(y_diff_prev, grad_diff)
     # Triggers at initialisation and convergence, as above.
     pred = jnp.abs(denominator) > jnp.finfo(denominator.dtype).eps
     safe_denom = jnp.where(pred, denominator, 1)
@@ -63,7 +63,7 @@ def dai_yuan(grad: Y, grad_prev: Y, y_diff_prev: Y) -> Scalar:
     """The Dai--Yuan formula for β. Used with [`optimistix.NonlinearCG`][] and
     [`optimistix.NonlinearCGDescent`][]."""
     numerator = sum_squares(grad)
-    denominator = -tree_dot(y_diff_prev, (grad**ω - grad_prev**ω).ω)
+    denominator = tree_dot(y_diff_prev, (grad**ω - grad_prev**ω).ω)
     # Triggers at initialisation and convergence, as above.
     pred = jnp.abs(denominator) > jnp.finfo(denominator.dtype).eps
     safe_denom = jnp.where(pred, denominator, 1)
-- 
2.43.0


From 31099f0125360694675422b86cb0eba74bfc26f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:52 +0000
Subject: [PATCH 4/6] fix: dogleg interpolation returning NaN

The two forms of the quadratic formula were swapped, so that the one that
cancels was used, giving 0/0 when the constant term vanishes. Also take the
Newton step directly when both the Cauchy and the Newton step are zero.
---
 optimistix/_solver/dogleg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/dogleg.py b/optimistix/_solver/dogleg.py
index 090d496..0e6b78a 100644
--- a/optimistix/_solver/dogleg.py
+++ b/optimistix/_solver/dogleg.py
@@ -167,7 +167,7 @@ class DoglegDescent(
                 # use slightly different formulas when `b >=` and `b < 0`.
                 # See https://github.com/fortran-lang/stdlib/issues/674 for a number of
                 # references.
-                t_interp = jnp.where(b >= 0, quadratic_1, quadratic_2)
+                t_interp = jnp.where(b >= 0, quadratic_2, quadratic_1)
                 result = RESULTS.successful
             else:
                 root_find_options = {"lower": jnp.array(1.0), "upper": jnp.array(2.0)}
@@ -188,8 +188,11 @@ class DoglegDescent(
             """Return the Newton step."""
             return newton, RESULTS.successful
 
+        # If both steps are zero then the interpolation is degenerate; the Newton step is
+        # already correct in that case.
+        interpolates = (step_size < 1) & (state.newton_norm > 0)
         index = jnp.where(
-            state.cauchy_norm > scaled_step_size, 0, jnp.where(step_size < 1, 1, 2)
+            state.cauchy_norm > scaled_step_size, 0, jnp.where(interpolates, 1, 2)
         )
         y_diff, root_result = lax.switch(
             index,
-- 
2.43.0


From 71bd83288b79c8e801cdd529ba5786d0b24713e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:24 +0000
Subject: [PATCH 5/6] fix: take Nelder-Mead's best and worst vertices from the
 updated simplex

---
 optimistix/_solver/nelder_mead.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index d3ff013..0626f79 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -384,8 +384,8 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
         f_best = -f_best_neg
         (f_worst, f_second_worst), (worst_index, _) = lax.top_k(f_new_simplex, 2)
         _structured_index = lambda a, b: jtu.tree_map(lambda _, x: x[b], y, a)
-        best = _structured_index(simplex, best_index)
-        worst = _structured_index(simplex, worst_index)
+        best = _structured_index(new_simplex, best_index)
+        worst = _structured_index(new_simplex, worst_index)
         new_state = _NelderMeadState(
             simplex=new_simplex,
             f_simplex=f_new_simplex,
@@ -404,7 +404,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             y0_simplex = False
 
         if y0_simplex:
-            out = simplex
+            out = new_simplex
         else:
             out = best
 
-- 
2.43.0


From 35e936cf4fd30f93ff4309991fa4f6ed23781ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:04 +0000
Subject: [PATCH 6/6] fix: honour the norm option of compat.minimize

---
 optimistix/compat/_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/compat/_impl.py b/optimistix/compat/_impl.py
index ee15e42..0ed2e8d 100644
--- a/optimistix/compat/_impl.py
+++ b/optimistix/compat/_impl.py
@@ -97,14 +97,14 @@ def minimize(
     else:
         options = dict(options)
     max_steps = options.pop("maxiter", None)
-    options.pop("norm", max_norm)
+    norm = options.pop("norm", max_norm)
     if len(options) != 0:
         raise ValueError(f"Unsupported options: {set(options.keys())}")
 
     def wrapped_fn(y, args):
         return fun(y, *args)
 
-    solver = BFGS(rtol=tol, atol=tol, norm=max_norm)
+    solver = BFGS(rtol=tol, atol=tol, norm=norm)
     sol = minimise(wrapped_fn, solver, x0, args, max_steps=max_steps, throw=False)
     status = jnp.where(
         sol.result == RESULTS.successful,
-- 
2.43.0

