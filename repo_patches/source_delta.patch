From 933ccf6fa32b3fac4c146cf8e70b9b7f8dc2b00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:31:36 +0000
Subject: [PATCH 01/46] fix: FunctionLogger: a repeated observation no longer
 corrupts y_orig

The log-Jacobian was added in place to a view of the stored original value.
---
 pyvbmc/function_logger/function_logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 29cda8b..502021d 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -385,7 +385,7 @@ class FunctionLogger:
                     N + 1
                 )
 
-            f_val = self.y_orig[idx]
+            f_val = self.y_orig[idx].copy()
             if self.transform_parameters:
                 f_val += self.parameter_transformer.log_abs_det_jacobian(x)
             self.y[idx] = f_val
-- 
2.43.0


From e656fd7a8b5a7233df5bd9000bdd8c4de6771762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:31:36 +0000
Subject: [PATCH 02/46] fix: FunctionLogger: keep y_max current when a repeated
 observation changes a value

---
 pyvbmc/function_logger/function_logger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 502021d..6bb84e9 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -393,6 +393,7 @@ class FunctionLogger:
                 N * self.fun_eval_time[idx] + fun_eval_time
             ) / (N + 1)
             self.n_evals[idx] += 1
+            self.y_max = np.nanmax(self.y[self.X_flag])
             return f_val, idx
         else:
             self.Xn += 1
-- 
2.43.0


From fb7cf6d7b4699819e56614deb80fa04a48136018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:31:36 +0000
Subject: [PATCH 03/46] fix: FunctionLogger.finalize: trim n_evals along with
 the other arrays

---
 pyvbmc/function_logger/function_logger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 6bb84e9..3425138 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -288,6 +288,7 @@ class FunctionLogger:
             self.S = self.S[: self.Xn + 1]
         self.X_flag = self.X_flag[: self.Xn + 1]
         self.fun_eval_time = self.fun_eval_time[: self.Xn + 1]
+        self.n_evals = self.n_evals[: self.Xn + 1]
 
     def _expand_arrays(self, resize_amount: int = None):
         """
-- 
2.43.0


From a9e2e2b0f8fc5d5fd8b7ce349bed29f0717277ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:31:36 +0000
Subject: [PATCH 04/46] fix: VBMC.optimize: read entropy_force_switch from the
 options

It was looked up in optim_state, where it never is, so that entropy_switch
raised a TypeError in the first iteration.
---
 pyvbmc/vbmc/vbmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index d8d6118..6cd5294 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -877,7 +877,7 @@ class VBMC:
             # deterministic.
             if self.optim_state.get("entropy_switch") and (
                 self.function_logger.func_count
-                >= self.optim_state.get("entropy_force_switch")
+                >= self.options.get("entropy_force_switch")
                 * self.optim_state.get("max_fun_evals")
             ):
                 self.optim_state["entropy_switch"] = False
-- 
2.43.0


From 89ffc92e6f15dbe999a384beb0bfcd903efadc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:31:36 +0000
Subject: [PATCH 05/46] fix: ParameterTransformer.__eq__: compare the scale
 with the other object's

---
 pyvbmc/parameter_transformer/parameter_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/parameter_transformer/parameter_transformer.py b/pyvbmc/parameter_transformer/parameter_transformer.py
index 5b4e428..e8f1d22 100644
--- a/pyvbmc/parameter_transformer/parameter_transformer.py
+++ b/pyvbmc/parameter_transformer/parameter_transformer.py
@@ -404,7 +404,7 @@ class ParameterTransformer:
 
     def __eq__(self, other):
         return (
-            np.all(self.scale == self.scale)
+            np.all(self.scale == other.scale)
             and np.all(self.R_mat == other.R_mat)
             and np.all(self.lb_orig == other.lb_orig)
             and np.all(self.ub_orig == other.ub_orig)
-- 
2.43.0


From 17eaa53fab9b040af7d4d8d80332dd496f7ecb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:31:36 +0000
Subject: [PATCH 06/46] fix: VariationalPosterior.set_parameters: check the
 positive parameters, not the tail from the wrong index

---
 pyvbmc/variational_posterior/variational_posterior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 6334d36..aa522b6 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -704,14 +704,14 @@ class VariationalPosterior:
 
         # check if sigma, lambda and weights are positive when raw_flag = False
         if not raw_flag:
-            check_idx = 0
+            check_idx = theta.size
             if self.optimize_weights:
                 check_idx -= self.K
             if self.optimize_lambd:
                 check_idx -= self.D
             if self.optimize_sigma:
                 check_idx -= self.K
-            if np.any(theta[-check_idx:] < 0.0):
+            if np.any(theta[check_idx:] < 0.0):
                 raise ValueError(
                     """sigma, lambda and weights must be positive
                     when raw_flag = False"""
-- 
2.43.0


From 0c8df31e384d40320dba19055f595244ee2b424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:31:36 +0000
Subject: [PATCH 07/46] fix: VariationalPosterior.kl_div: per-coordinate mean
 of the given samples

---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index aa522b6..cdcceac 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -1100,7 +1100,7 @@ class VariationalPosterior:
                 if vp2 is not None:
                     q2mu, q2sigma = vp2.moments(N, True, True)
                 else:
-                    q2mu = np.mean(samples)
+                    q2mu = np.mean(samples, axis=0)
                     q2sigma = np.cov(samples.T)
 
             kls = kl_div_mvn(q1mu, q1sigma, q2mu, q2sigma)
-- 
2.43.0


From ece6367472453ef0abea0671c2fc765bb2a9c182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:31:36 +0000
Subject: [PATCH 08/46] fix: VariationalPosterior.pdf: do not truncate
 transformed points when given integers

---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index cdcceac..be6cc5b 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -422,7 +422,7 @@ class VariationalPosterior:
             `grad_flag` = ``True`` (gradient computation of the log-pdf in the
             original space is not supported yet).
         """
-        x = x.copy()
+        x = np.array(x, dtype=float)
         N, D = x.shape
 
         # compute pdf only for points inside bounds in origspace
-- 
2.43.0


From 6fb389f2bc82aab8cbc527820c0eeffb2fc528c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:31:36 +0000
Subject: [PATCH 09/46] fix: minimize_adam: do not modify the caller's starting
 point

---
 pyvbmc/vbmc/minimize_adam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/minimize_adam.py b/pyvbmc/vbmc/minimize_adam.py
index fbb3beb..eadfe8b 100644
--- a/pyvbmc/vbmc/minimize_adam.py
+++ b/pyvbmc/vbmc/minimize_adam.py
@@ -78,7 +78,7 @@ def minimize_adam(
     v = 0
     x_tab = np.zeros((n_vars, max_iter))
 
-    x = x0
+    x = np.array(x0, dtype=float)
     y_tab = np.full((max_iter,), np.nan)
 
     for i in range(0, max_iter):
-- 
2.43.0


From 0b2ca37d8943e09cad03ee059a10eb0aaab66993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:31:36 +0000
Subject: [PATCH 10/46] fix: Prior.log_pdf: correct densities for integer-typed
 points

---
 pyvbmc/priors/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/priors/prior.py b/pyvbmc/priors/prior.py
index 3e4d193..ab8869c 100644
--- a/pyvbmc/priors/prior.py
+++ b/pyvbmc/priors/prior.py
@@ -25,7 +25,7 @@ class Prior(ABC):
             `(n, 1)` or `(n,)` (depending on ``keepdims``).
         """
         x_orig_shape = x.shape
-        x = np.atleast_2d(x)
+        x = np.atleast_2d(x).astype(float)
         n, D = x.shape
         if self.D == 1 and n == 1:
             x = x.T
-- 
2.43.0


From c8ca4d9cd99db71fefbbe2657d7a09361ed142ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:31:36 +0000
Subject: [PATCH 11/46] fix: SciPy prior: support of the distribution itself,
 not of its standard form

---
 pyvbmc/priors/scipy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/priors/scipy.py b/pyvbmc/priors/scipy.py
index a57a05b..b16478f 100644
--- a/pyvbmc/priors/scipy.py
+++ b/pyvbmc/priors/scipy.py
@@ -51,8 +51,9 @@ class SciPy(Prior):
             self.b = np.full(self.D, np.inf)
         elif isinstance(distribution, rv_continuous_frozen):
             self.D = 1
-            self.a = np.atleast_1d(distribution.a)
-            self.b = np.atleast_1d(distribution.b)
+            a, b = distribution.support()
+            self.a = np.atleast_1d(a)
+            self.b = np.atleast_1d(b)
         else:
             raise TypeError(
                 f'A SciPy prior should be initialized from a "frozen" multivariate normal, multivariate t, or univariate SciPy distribution, but got `distribution` of type {type(distribution)}.'
-- 
2.43.0


From 361ca35841487ad9be4c297b2cb8949e55c99a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:31:36 +0000
Subject: [PATCH 12/46] fix: optimize_vp: drop a pruned component from both
 axes of J_sjk

---
 pyvbmc/vbmc/variational_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index 665ae47..600a036 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -373,7 +373,7 @@ def optimize_vp(
                 pruned += 1
                 already_checked = np.delete(already_checked, idx)
                 I_sk = np.delete(I_sk, idx, axis=1)
-                J_sjk = np.delete(J_sjk, idx, axis=2)
+                J_sjk = np.delete(np.delete(J_sjk, idx, axis=1), idx, axis=2)
             else:
                 already_checked[idx] = True
 
-- 
2.43.0


From bba50d7003223ed8cee6f30641b776aa042af8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:33:34 +0000
Subject: [PATCH 13/46] fix: VBMC.optimize: continuing a finished run does not
 alias the recorded history

---
 pyvbmc/vbmc/vbmc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 6cd5294..95c2b80 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -857,8 +857,11 @@ class VBMC:
         if self.is_finished:
             self.logger.warning("Continuing optimization from previous state.")
             self.is_finished = False
-            self.vp = self.iteration_history["vp"][-1]
-            self.optim_state = self.iteration_history["optim_state"][-1]
+            # Copy, so that continuing does not rewrite the recorded history
+            self.vp = copy.deepcopy(self.iteration_history["vp"][-1])
+            self.optim_state = copy.deepcopy(
+                self.iteration_history["optim_state"][-1]
+            )
         self._log_column_headers()
         while not self.is_finished:
             self.iteration += 1
-- 
2.43.0


From 2364c2d5dec28ea01459ff1128eef88f348e4071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:34:37 +0000
Subject: [PATCH 14/46] fix: VBMC.optimize: record the state after the end of
 warm-up, so that a run resumes there

---
 pyvbmc/vbmc/vbmc.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 95c2b80..0b91b3b 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1338,6 +1338,17 @@ class VBMC:
                     # self.optim_state['acq_info'] = getAcqInfo(
                     #    options.SearchAcqFcn
                     # )
+                if trim_flag:
+                    # The training set and the variational posterior changed
+                    # after they were recorded: keep the history up to date
+                    self.iteration_history.record_iteration(
+                        {
+                            "vp": self.vp,
+                            "gp": self.gp,
+                            "function_logger": self.function_logger,
+                        },
+                        self.iteration,
+                    )
             # Needs to be below the above block since warmup value can change
             # in _check_warmup_end_conditions
             self.iteration_history.record(
-- 
2.43.0


From 2f4ddf34cdda422c3c7e832e8746458c783373df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:06 +0000
Subject: [PATCH 15/46] fix: VBMC.optimize: record the current GP
 hyperparameters, so that a run resumes after a warp

---
 pyvbmc/vbmc/vbmc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 0b91b3b..4f0f1bd 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1495,6 +1495,8 @@ class VBMC:
                 plt.show()
 
             # Record optim_state and random state
+            # (with the current GP hyperparameters, needed to resume the run)
+            self.optim_state["hyp_dict"] = self.hyp_dict
             self.random_state = np.random.get_state()
             self.iteration_history.record_iteration(
                 {
-- 
2.43.0


From 143d221775724ad74c26f95ffece3b2f6ba5087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:06 +0000
Subject: [PATCH 16/46] fix: VBMC warm-up check: no crash when there are no
 earlier iterations to compare

---
 pyvbmc/vbmc/vbmc.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 4f0f1bd..1b81c48 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1623,13 +1623,17 @@ class VBMC:
                 "elcbo_impro_weight"
             ) * self.iteration_history.get("elbo_sd")
             # NB: Take care with MATLAB "end" indexing and off-by-one errors:
-            max_now = np.amax(
-                elcbo_vec[max(3, len(elcbo_vec) - tol_stable_warmup_iters) :]
-            )
-            max_before = np.amax(
-                elcbo_vec[2 : max(3, len(elcbo_vec) - tol_stable_warmup_iters)]
-            )
-            stable_count_flag = (max_now - max_before) < stop_warmup_thresh
+            elcbo_now = elcbo_vec[
+                max(3, len(elcbo_vec) - tol_stable_warmup_iters) :
+            ]
+            elcbo_before = elcbo_vec[
+                2 : max(3, len(elcbo_vec) - tol_stable_warmup_iters)
+            ]
+            # No verdict until there are iterations to compare
+            if len(elcbo_now) > 0 and len(elcbo_before) > 0:
+                max_now = np.amax(elcbo_now)
+                max_before = np.amax(elcbo_before)
+                stable_count_flag = (max_now - max_before) < stop_warmup_thresh
 
         # Vector of maximum lower confidence bounds (LCB) of fcn values
         lcb_max_vec = self.iteration_history.get("lcb_max")[: iteration + 1]
-- 
2.43.0


From 40cdac26734c7b7a11ee5e3b9c410bc76404c8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:46 +0000
Subject: [PATCH 17/46] fix: active search: do not crash on an empty search
 cache, nor when warping a non-empty one

---
 pyvbmc/vbmc/active_sample.py  | 11 ++++++-----
 pyvbmc/whitening/whitening.py |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 1dac2c0..57fd960 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -715,11 +715,12 @@ def _get_search_points(
         )
         if N_search_cache > 0:  # Take points from search cache
             search_cache = optim_state.get("search_cache")
-            random_Xs = np.append(
-                random_Xs,
-                search_cache[: min(len(search_cache), N_search_cache)],
-                axis=0,
-            )
+            # The cache may still be empty, or smaller than requested
+            N_search_cache = min(len(search_cache), N_search_cache)
+            if N_search_cache > 0:
+                random_Xs = np.append(
+                    random_Xs, search_cache[:N_search_cache], axis=0
+                )
 
         N_heavy = round(
             options.get("heavy_tail_search_frac") * N_random_points
diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index 2cbcd9e..c0dc9a5 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -219,7 +219,7 @@ def warp_input(vp, optim_state, function_logger, options):
     optim_state["ub_search"] = np.atleast_2d(yyMax + delta / Nrnd)
 
     # If search cache is not empty, update it
-    if optim_state.get("search_cache"):
+    if len(optim_state.get("search_cache", [])) > 0:
         optim_state["search_cache"] = warpfun(optim_state["search_cache"])
 
     # Update other state fields
-- 
2.43.0


From ff61ce6ea40194ece7c72dd6dd7f651eecd871a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:46 +0000
Subject: [PATCH 18/46] fix: active search: integer variables with an optimised
 (one-dimensional) search point

---
 pyvbmc/acquisition_functions/abstract_acq_fcn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/acquisition_functions/abstract_acq_fcn.py b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
index b49ad19..6302ac9 100644
--- a/pyvbmc/acquisition_functions/abstract_acq_fcn.py
+++ b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
@@ -185,9 +185,9 @@ class AbstractAcqFcn(ABC):
 
         if np.any(integer_vars):
             X_temp = parameter_transformer.inverse(X)
-            X_temp[:, integer_vars] = np.around(X_temp[:, integer_vars])
+            X_temp[..., integer_vars] = np.around(X_temp[..., integer_vars])
             X_temp = parameter_transformer(X_temp)
-            X[:, integer_vars] = X_temp[:, integer_vars]
+            X[..., integer_vars] = X_temp[..., integer_vars]
 
         return X
 
-- 
2.43.0


From e41052decee57dcfdef29ab31627f8aaa215b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:46 +0000
Subject: [PATCH 19/46] fix: active importance sampling: resample by the
 weights over all points

---
 pyvbmc/vbmc/active_importance_sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/active_importance_sampling.py b/pyvbmc/vbmc/active_importance_sampling.py
index e11fcac..741a69b 100644
--- a/pyvbmc/vbmc/active_importance_sampling.py
+++ b/pyvbmc/vbmc/active_importance_sampling.py
@@ -228,8 +228,8 @@ def active_importance_sampling(vp, gp, acq_fcn, options):
                 ln_weights = active_is_old["ln_weights"][s, :].reshape(
                     -1, 1
                 ) + acq_fcn.is_log_added(f_mu=f_mu, f_s2=f_s2)
-                ln_weights_max = np.amax(ln_weights, axis=1).reshape(-1, 1)
-                if np.any(ln_weights_max == -np.inf):
+                ln_weights_max = np.amax(ln_weights)
+                if ln_weights_max == -np.inf:
                     raise ValueError("Invalid value.")
                 weights = np.exp(ln_weights - ln_weights_max).ravel()
                 weights = weights / np.sum(weights)
-- 
2.43.0


From e87dd5ccee9c1a76af3c3fe395266b4c8b51ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 20/46] fix: VBMC.determine_best_vp: the ranking criterion
 works on a recorded history

---
 pyvbmc/vbmc/vbmc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 1b81c48..2c2492c 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2129,9 +2129,8 @@ class VBMC:
 
                 # Rank penalty to all non-stable iterations
                 rank[:, 3] = max_idx
-                rank[
-                    self.iteration_history.get("stable")[: max_idx + 1], 3
-                ] = 1
+                stable = self.iteration_history.get("stable")[: max_idx + 1]
+                rank[stable.astype(bool), 3] = 1
 
                 idx_best = np.argmin(np.sum(rank, 1))
 
-- 
2.43.0


From 84cba9d8943c32ed13fa3cd5948d9dcd051658a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 21/46] fix: active_sample: full updates work with constant
 ns_elbo and ns_ent_fine_active options

---
 pyvbmc/vbmc/active_sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 57fd960..c215f93 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -544,7 +544,7 @@ def active_sample(
                             # Decide number of fast optimizations
                             N_fastopts = math.ceil(
                                 options_update["ns_elbo_incr"]
-                                * options_update["ns_elbo"](vp.K)
+                                * options_update.eval("ns_elbo", {"K": vp.K})
                             )
                             if options["update_random_alpha"]:
                                 optim_state["entropy_alpha"] = 1 - np.sqrt(
@@ -632,7 +632,7 @@ def active_sample(
                 np.any(theta0 != theta)
             ):
                 NSentFineK = math.ceil(
-                    options["ns_ent_fine_active"](vp0.K) / vp0.K
+                    options.eval("ns_ent_fine_active", {"K": vp0.K}) / vp0.K
                 )
                 elbo0 = -_neg_elcbo(
                     theta0, gp, vp0, 0.0, NSentFineK, False, True
-- 
2.43.0


From fcce4ecb2a59c82c3c7644f59e260ac4b3fd747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:30 +0000
Subject: [PATCH 22/46] fix: warp_input: map the search bounds and cache from
 the coordinates in use

---
 pyvbmc/whitening/whitening.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index c0dc9a5..f00b0bc 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -115,6 +115,8 @@ def warp_input(vp, optim_state, function_logger, options):
     parameter_transformer = copy.deepcopy(vp.parameter_transformer)
     optim_state = copy.deepcopy(optim_state)
     function_logger = copy.deepcopy(function_logger)
+    # Coordinates currently in use (those of vp may be older)
+    old_parameter_transformer = function_logger.parameter_transformer
 
     if options.get("warp_nonlinear"):
         raise NotImplementedError("Non-linear warping is not supported.")
@@ -203,7 +205,7 @@ def warp_input(vp, optim_state, function_logger, options):
     # Invert points to original space with old transform,
     # then map to new space with new transform
     def warpfun(x):
-        return parameter_transformer(vp.parameter_transformer.inverse(x))
+        return parameter_transformer(old_parameter_transformer.inverse(x))
 
     Nrnd = 1000
     xx = (
-- 
2.43.0


From bc52cc02a614761f9416729bab821cb852e79971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 23/46] fix: VariationalPosterior.mode: works for
 one-dimensional posteriors in the original space

---
 pyvbmc/variational_posterior/variational_posterior.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index be6cc5b..9ab471b 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -889,9 +889,9 @@ class VariationalPosterior:
             if orig_flag:
                 bounds = np.stack(
                     (
-                        self.parameter_transformer.lb_orig.squeeze()
+                        self.parameter_transformer.lb_orig.ravel()
                         + np.sqrt(np.finfo(float).eps),
-                        self.parameter_transformer.ub_orig.squeeze()
+                        self.parameter_transformer.ub_orig.ravel()
                         - np.sqrt(np.finfo(float).eps),
                     ),
                     axis=1,
@@ -900,7 +900,7 @@ class VariationalPosterior:
                     self.parameter_transformer.ub_orig,
                     np.maximum(x0, self.parameter_transformer.lb_orig),
                 )
-                x0 = x0.squeeze()
+                x0 = x0.ravel()
 
             # fun provides gradient (jac=True) when orig_flag is False:
             res = minimize(
-- 
2.43.0


From d540c80c675c8ea1008e4f1d4d96c037bdc668d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 24/46] fix: VariationalPosterior.kl_div: replace infinite
 densities as intended

---
 pyvbmc/variational_posterior/variational_posterior.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 9ab471b..ca5db62 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -1110,15 +1110,15 @@ class VariationalPosterior:
             xx1, _ = self.sample(N, True, True)
             q1 = self.pdf(xx1, True)
             q2 = vp2.pdf(xx1, True)
-            q1[q1 == 0 | np.isinf(q1)] = 1.0
-            q2[q2 == 0 | np.isinf(q2)] = minp
+            q1[(q1 == 0) | np.isinf(q1)] = 1.0
+            q2[(q2 == 0) | np.isinf(q2)] = minp
             kl1 = -np.mean(np.log(q2) - np.log(q1))
 
             xx2, _ = vp2.sample(N, True, True)
             q1 = self.pdf(xx2, True)
             q2 = vp2.pdf(xx2, True)
-            q1[q1 == 0 | np.isinf(q1)] = minp
-            q2[q2 == 0 | np.isinf(q2)] = 1.0
+            q1[(q1 == 0) | np.isinf(q1)] = minp
+            q2[(q2 == 0) | np.isinf(q2)] = 1.0
             kl2 = -np.mean(np.log(q1) - np.log(q2))
             kls = np.concatenate((kl1, kl2), axis=None)
 
-- 
2.43.0


From 69b259ea2fa5e958a1b9d72f87f9bd97b2baef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 25/46] fix: ParameterTransformer: a rotation or scaling given
 at construction does not distort the centering

---
 pyvbmc/parameter_transformer/parameter_transformer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/parameter_transformer/parameter_transformer.py b/pyvbmc/parameter_transformer/parameter_transformer.py
index e8f1d22..0877ebc 100644
--- a/pyvbmc/parameter_transformer/parameter_transformer.py
+++ b/pyvbmc/parameter_transformer/parameter_transformer.py
@@ -48,8 +48,9 @@ class ParameterTransformer:
         rotation_matrix: np.ndarray = None,
         transform_type="logit",
     ):
-        self.scale = scale
-        self.R_mat = rotation_matrix
+        # The rotation and scaling apply to the centered coordinates (below)
+        self.scale = None
+        self.R_mat = None
 
         # Empty LB and UB are Infs
         if lb_orig is None:
@@ -131,6 +132,9 @@ class ParameterTransformer:
                     self.mu[i] = 0.5 * (plb_tran[0, i] + pub_tran[0, i])
                     self.delta[i] = pub_tran[0, i] - plb_tran[0, i]
 
+        self.scale = scale
+        self.R_mat = rotation_matrix
+
     @handle_0D_1D_input(patched_kwargs=["x"], patched_argpos=[0])
     def __call__(self, x: np.ndarray):
         """
-- 
2.43.0


From 5af4f2136d2eddcb4b263fcb16f751cb89811092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 26/46] fix: Student's t transform: the inverse handles points
 at the bounds (infinite or huge coordinates)

---
 pyvbmc/parameter_transformer/parameter_transformer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvbmc/parameter_transformer/parameter_transformer.py b/pyvbmc/parameter_transformer/parameter_transformer.py
index 0877ebc..e9b333e 100644
--- a/pyvbmc/parameter_transformer/parameter_transformer.py
+++ b/pyvbmc/parameter_transformer/parameter_transformer.py
@@ -543,6 +543,8 @@ def _student4(z):
 
 
 def _inverse_student4(u):
+    # prevent overflow (the CDF is flat long before)
+    u = np.clip(u, -1e100, 1e100)
     t2 = u**2
     return 0.5 + (3 / 8) * (u / np.sqrt(1 + t2 / 4)) * (
         1 - t2 / (1 + t2 / 4) / 12
-- 
2.43.0


From c59e63f9ad594eb986c79733f7cc3afd4c01d1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:07 +0000
Subject: [PATCH 27/46] fix: SmoothBox: infinite support also when the pivots
 are integers

---
 pyvbmc/priors/smooth_box.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/priors/smooth_box.py b/pyvbmc/priors/smooth_box.py
index d6d77ae..0343dd6 100644
--- a/pyvbmc/priors/smooth_box.py
+++ b/pyvbmc/priors/smooth_box.py
@@ -168,8 +168,8 @@ class SmoothBox(Prior):
             [``lb[i]``, ``ub[i]``] bounds the support of the `i`th marginal.
         """
         return (
-            np.full_like(self.a, -np.inf),
-            np.full_like(self.b, np.inf),
+            np.full(self.D, -np.inf),
+            np.full(self.D, np.inf),
         )
 
     def __str__(self):
-- 
2.43.0


From 1b397bedefe97fdb6c58cd24fc1dc3e67dfbdaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:02 +0000
Subject: [PATCH 28/46] fix: VariationalPosterior.pdf: reject points of another
 dimension

---
 pyvbmc/variational_posterior/variational_posterior.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index ca5db62..7ec5742 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -421,9 +421,15 @@ class VariationalPosterior:
             Raised if `orig_flag` = ``True`` and `log_flag` = ``True`` and
             `grad_flag` = ``True`` (gradient computation of the log-pdf in the
             original space is not supported yet).
+        ValueError
+            Raised if the points do not have the dimension of the posterior.
         """
         x = np.array(x, dtype=float)
         N, D = x.shape
+        if D != self.D:
+            raise ValueError(
+                f"x should have shape ({self.D},) or (n, {self.D}) but has {D} columns."
+            )
 
         # compute pdf only for points inside bounds in origspace
         if orig_flag:
-- 
2.43.0


From fac9352a8a6cba2bff65446c97124a8eb0582e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:23 +0000
Subject: [PATCH 29/46] fix: Options: the in-place union does not change
 validated options

---
 pyvbmc/vbmc/options.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyvbmc/vbmc/options.py b/pyvbmc/vbmc/options.py
index 822e788..217b0e4 100644
--- a/pyvbmc/vbmc/options.py
+++ b/pyvbmc/vbmc/options.py
@@ -190,6 +190,11 @@ class Options(MutableMapping, dict):
         else:
             dict.__setitem__(self, key, val)
 
+    def __ior__(self, other):
+        # (`dict.__ior__` would bypass the check in `self.__setitem__`)
+        self.update(other)
+        return self
+
     def __getitem__(self, key):
         return dict.__getitem__(self, key)
 
-- 
2.43.0


From 9b56e5d3babfde653592f8a3caba3b5bf25479c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:23 +0000
Subject: [PATCH 30/46] fix: VBMC.load: reject unknown new options, refresh the
 budget

---
 pyvbmc/vbmc/vbmc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 2c2492c..4c68526 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2241,7 +2241,8 @@ class VBMC:
         ------
         ValueError
             If the specified ``iteration`` is less than zero or larger than the
-            last stored iteration.
+            last stored iteration, or if ``new_options`` contains unknown
+            options.
         OSError
             If the file cannot be found, or cannot be opened for other reasons.
         """
@@ -2280,9 +2281,13 @@ class VBMC:
 
         # Update with new options (e.g. higher number of max iterations)
         if new_options is not None:
+            for key in new_options:
+                if key not in vbmc.options:
+                    raise ValueError(f"The option {key} does not exist.")
             vbmc.options.is_initialized = False
             vbmc.options.update(new_options)
             vbmc.options.is_initialized = True
+            vbmc.optim_state["max_fun_evals"] = vbmc.options["max_fun_evals"]
 
         # Optionally set random state for reproducibility
         if set_random_state:
-- 
2.43.0


From 5ca8e297c91d1f61ef8aced7f92c15a0e75930c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:09 +0000
Subject: [PATCH 31/46] fix: VBMC: noise-dependent defaults apply when the
 options file specifies target noise

---
 pyvbmc/vbmc/vbmc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 4c68526..ae32168 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -177,6 +177,12 @@ class VBMC:
             advanced_options_path,
             evaluation_parameters={"D": self.D},
         )
+        if options_path is not None:
+            # The user-specified config file may announce a noisy target
+            self.options.load_options_file(
+                options_path,
+                evaluation_parameters={"D": self.D},
+            )
         self.options.update_defaults()
         if options_path is not None:
             # Update with user-specified config file
-- 
2.43.0


From 08685e0195c5e6d145ca57515592e1b1155f0dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:08 +0000
Subject: [PATCH 32/46] fix: VBMC bounds check: do not write into the given
 plausible bounds

---
 pyvbmc/vbmc/vbmc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index ae32168..b681897 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -352,8 +352,12 @@ class VBMC:
 
                 idx = plausible_lower_bounds == plausible_upper_bounds
                 if np.any(idx):
-                    plausible_lower_bounds[idx] = lower_bounds[idx]
-                    plausible_upper_bounds[idx] = upper_bounds[idx]
+                    plausible_lower_bounds = np.where(
+                        idx, lower_bounds, plausible_lower_bounds
+                    )
+                    plausible_upper_bounds = np.where(
+                        idx, upper_bounds, plausible_upper_bounds
+                    )
                     self.logger.warning(
                         "vbmc:pbInitFailed: Some plausible bounds could not be "
                         "determined from starting set. Using hard upper/lower"
-- 
2.43.0


From e3b48b2ec39812f1449902f801eaceeb1741f569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 33/46] fix: minimize_adam: average all points when there are
 fewer than a batch

---
 pyvbmc/vbmc/minimize_adam.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/minimize_adam.py b/pyvbmc/vbmc/minimize_adam.py
index eadfe8b..c63b686 100644
--- a/pyvbmc/vbmc/minimize_adam.py
+++ b/pyvbmc/vbmc/minimize_adam.py
@@ -136,8 +136,10 @@ def minimize_adam(
             ):
                 break
 
-    x = np.mean(x_tab[:, i - batch_size + 1 : i + 1], axis=1)
-    y = np.mean(y_tab[i - batch_size + 1 : i + 1])
+    # Average of the last batch (or of all points, if there are fewer)
+    start = max(0, i - batch_size + 1)
+    x = np.mean(x_tab[:, start : i + 1], axis=1)
+    y = np.mean(y_tab[start : i + 1])
 
     x_tab = x_tab[:, 0 : i + 1]
     y_tab = y_tab[0 : i + 1]
-- 
2.43.0


From 35df621ba8a6851639e076d0108d42e4a9f959e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:52 +0000
Subject: [PATCH 34/46] fix: train_gp: scaled noise variances are part of the
 GP noise model (unknown noise level)

---
 pyvbmc/vbmc/gaussian_process_train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/gaussian_process_train.py b/pyvbmc/vbmc/gaussian_process_train.py
index 6894fdb..359201b 100644
--- a/pyvbmc/vbmc/gaussian_process_train.py
+++ b/pyvbmc/vbmc/gaussian_process_train.py
@@ -85,7 +85,7 @@ def train_gp(
 
     # Pick the noise function.
     const_add = optim_state["gp_noise_fun"][0] == 1
-    user_add = optim_state["gp_noise_fun"][1] == 1
+    user_add = optim_state["gp_noise_fun"][1] in (1, 2)
     user_scale = optim_state["gp_noise_fun"][1] == 2
     rlod_add = optim_state["gp_noise_fun"][2] == 1
     noise_f = gpr.noise_functions.GaussianNoise(
-- 
2.43.0


From f705d4de8a0bac2704e2e2ba78cfdfc2ccaee936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 35/46] fix: string_to_acq: spaces around the name and the
 arguments do not matter

---
 pyvbmc/acquisition_functions/utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/acquisition_functions/utilities.py b/pyvbmc/acquisition_functions/utilities.py
index 60dac6e..0a22e7a 100644
--- a/pyvbmc/acquisition_functions/utilities.py
+++ b/pyvbmc/acquisition_functions/utilities.py
@@ -6,16 +6,16 @@ import pyvbmc.acquisition_functions
 def string_to_acq(string):
     """Safely convert an input string to an acquisition function."""
     # Remove whitespace and trailing ")", if present
-    string = string.rstrip()
+    string = string.strip()
     string = string.removesuffix(")")
     # Split on "(" to get class name and parameters
     parts = string.partition("(")
-    acq_fcn = parts[0]
+    acq_fcn = parts[0].rstrip()
     args_string = parts[2]
     args = []
     kwargs = {}
     for arg in args_string.split(","):
-        arg = arg.rstrip().split("=")
+        arg = [part.strip() for part in arg.split("=")]
         if len(arg) == 1 and arg != [""]:
             args.append(literal_eval(arg[0]))
         elif len(arg) == 2:
-- 
2.43.0


From 7d7e0d99ee3ac9fee6fbca062e7c7142d0fdff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 36/46] fix: VBMC: the state switches on the variance
 regularisation under the name the acquisition functions read

---
 pyvbmc/vbmc/vbmc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index b681897..1d830ae 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -728,6 +728,7 @@ class VBMC:
         # By default, apply variance-based regularization
         # to acquisition functions
         optim_state["variance_regularized_acqfcn"] = True
+        optim_state["variance_regularized_acq_fcn"] = True
 
         # Setup search cache
         optim_state["search_cache"] = []
-- 
2.43.0


From 7331dac3f763627b917fd1038990371d374fe1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 37/46] fix: variational bound loss: read the posterior's
 optimize_lambd flag

---
 pyvbmc/vbmc/variational_optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index 600a036..c27bcf6 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -558,7 +558,7 @@ def _vp_bound_loss(
     theta_ext = []
     if vp.optimize_mu:
         theta_ext.append(mu.ravel())
-    if vp.optimize_sigma or vp.optimize_lambda:
+    if vp.optimize_sigma or vp.optimize_lambd:
         theta_ext.append(ln_scale.ravel(order="F"))
     if vp.optimize_weights:
         theta_ext.append(eta.ravel())
@@ -580,7 +580,7 @@ def _vp_bound_loss(
         else:
             start_idx = 0
 
-        if vp.optimize_sigma or vp.optimize_lambda:
+        if vp.optimize_sigma or vp.optimize_lambd:
             dlnscale = np.reshape(
                 dL[start_idx : start_idx + vp.D * vp.K], (vp.D, vp.K)
             )
-- 
2.43.0


From d92b66ef440923ed310748863533c9f61c449ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 38/46] fix: acquisition functions: rounding integer variables
 does not modify the given points

---
 pyvbmc/acquisition_functions/abstract_acq_fcn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/acquisition_functions/abstract_acq_fcn.py b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
index 6302ac9..fd71e32 100644
--- a/pyvbmc/acquisition_functions/abstract_acq_fcn.py
+++ b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
@@ -187,6 +187,7 @@ class AbstractAcqFcn(ABC):
             X_temp = parameter_transformer.inverse(X)
             X_temp[..., integer_vars] = np.around(X_temp[..., integer_vars])
             X_temp = parameter_transformer(X_temp)
+            X = np.copy(X)  # Do not modify the input
             X[..., integer_vars] = X_temp[..., integer_vars]
 
         return X
-- 
2.43.0


From 89577eba483987360e0ee630060ddb25d79469f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:38 +0000
Subject: [PATCH 39/46] fix: variational bound loss: the scale gradient is
 component-major

---
 pyvbmc/vbmc/variational_optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index c27bcf6..bb174b2 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -582,7 +582,9 @@ def _vp_bound_loss(
 
         if vp.optimize_sigma or vp.optimize_lambd:
             dlnscale = np.reshape(
-                dL[start_idx : start_idx + vp.D * vp.K], (vp.D, vp.K)
+                dL[start_idx : start_idx + vp.D * vp.K],
+                (vp.D, vp.K),
+                order="F",
             )
 
             if vp.optimize_sigma:
-- 
2.43.0


From 2521f5c92a21dfdaae865a8ef4160888b2c87053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 40/46] fix: GP training: the option upper_gp_length_factor
 limits the length scales

---
 pyvbmc/vbmc/gaussian_process_train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/gaussian_process_train.py b/pyvbmc/vbmc/gaussian_process_train.py
index 359201b..4082427 100644
--- a/pyvbmc/vbmc/gaussian_process_train.py
+++ b/pyvbmc/vbmc/gaussian_process_train.py
@@ -384,7 +384,7 @@ def _gp_hyp(
         )
         bounds["covariance_log_lengthscale"] = (
             cov_bounds_info["LB"][:D],
-            np.nan,
+            bounds["covariance_log_lengthscale"][1],
         )
         # These bounds are wider since cov_bounds_info is based on the
         # high-posterior-density region as opposed to the full data
-- 
2.43.0


From ae018d3268a40efd4c072d7bdd5d9988ae9e170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 41/46] fix: VariationalPosterior.sample: balanced samples
 represent the weights without bias

---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 7ec5742..44290fb 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -302,7 +302,7 @@ class VariationalPosterior:
                     if N > i.shape[0]:
                         w_extra = self.w * N - repeats
                         repeats_extra = np.ceil(np.sum(w_extra))
-                        w_extra += self.w * (repeats_extra - sum(w_extra))
+                        w_extra += self.w * (repeats_extra - np.sum(w_extra))
                         w_extra /= np.sum(w_extra)
                         i_extra = np.random.choice(
                             range(self.K),
-- 
2.43.0


From 7f89f386306b7ae71ff0c86407573385f9a7fa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 42/46] fix: VBMC.optimize: log the final boost of a run with
 provided values

---
 pyvbmc/vbmc/vbmc.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 1d830ae..a6e198b 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1547,7 +1547,21 @@ class VBMC:
             if self.options.get("plot"):
                 self._log_column_headers()
 
-            if (
+            if self.optim_state["cache_active"]:
+                self.logger.info(
+                    display_format.format(
+                        np.inf,
+                        self.function_logger.func_count,
+                        self.function_logger.cache_count,
+                        elbo,
+                        elbo_sd,
+                        sKL,
+                        self.vp.K,
+                        self.iteration_history.get("r_index")[idx_best],
+                        "finalize",
+                    )
+                )
+            elif (
                 self.optim_state["uncertainty_handling_level"] > 0
                 and self.options.get("max_repeated_observations") > 0
             ):
-- 
2.43.0


From 3bf8fdbe9e528d1d1b354748d9fdf9ff7d53b167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 43/46] fix: acquisition functions: regularise values of shape
 (N, 1)

---
 pyvbmc/acquisition_functions/abstract_acq_fcn.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyvbmc/acquisition_functions/abstract_acq_fcn.py b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
index fd71e32..326a7b9 100644
--- a/pyvbmc/acquisition_functions/abstract_acq_fcn.py
+++ b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
@@ -109,6 +109,14 @@ class AbstractAcqFcn(ABC):
             var_tot,
         )
 
+        # Re-shape to 1-D, if necessary (to avoid errors in cma.fmin)
+        if acq.ndim > 1:
+            if acq.shape[0] != acq.size and acq.shape[1] != acq.size:
+                raise ValueError(
+                    "Acquisition function should return a 1-D result (or a 2-D result which has size 1 along at least one axis)."
+                )
+            acq = acq.reshape(-1)
+
         # Regularization: penalize points where GP uncertainty
         # is below threshold
         if optim_state.get("variance_regularized_acq_fcn"):
@@ -137,13 +145,6 @@ class AbstractAcqFcn(ABC):
         )
         acq[idx_bounds] = np.inf
 
-        # Re-shape to 1-D, if necessary (to avoid errors in cma.fmin)
-        if acq.ndim > 1:
-            if acq.shape[0] != acq.size and acq.shape[1] != acq.size:
-                raise ValueError(
-                    "Acquisition function should return a 1-D result (or a 2-D result which has size 1 along at least one axis)."
-                )
-            acq = acq.reshape(-1)
         return acq
 
     @abstractmethod
-- 
2.43.0


From e6cde6423375bd218cb32ead0061e7cc759f2c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 44/46] fix: VBMC result: the problem type is that of the hard
 bounds

---
 pyvbmc/vbmc/vbmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index a6e198b..1eadfb7 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2329,8 +2329,8 @@ class VBMC:
         """
         output = {}
         output["function"] = str(self.function_logger.fun)
-        if np.all(np.isinf(self.optim_state["lb_tran"])) and np.all(
-            np.isinf(self.optim_state["ub_tran"])
+        if np.all(np.isinf(self.lower_bounds)) and np.all(
+            np.isinf(self.upper_bounds)
         ):
             output["problem_type"] = "unconstrained"
         else:
-- 
2.43.0


From 233d48b5c8659e3d3ef6fe0b2e3a4c351df68896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 45/46] fix: surrogate training: covariance of the past
 hyperparameter samples (one row per sample)

---
 pyvbmc/vbmc/gaussian_process_train.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyvbmc/vbmc/gaussian_process_train.py b/pyvbmc/vbmc/gaussian_process_train.py
index 4082427..a9f586f 100644
--- a/pyvbmc/vbmc/gaussian_process_train.py
+++ b/pyvbmc/vbmc/gaussian_process_train.py
@@ -178,7 +178,7 @@ def train_gp(
         # end
 
     # Update running average of GP hyperparameter covariance (coarse)
-    if hyp_dict["full"] is not None and hyp_dict["full"].shape[1] > 1:
+    if hyp_dict["full"] is not None and hyp_dict["full"].shape[0] > 1:
         hyp_cov = np.cov(hyp_dict["full"].T)
         if hyp_dict["run_cov"] is None or options["hyp_run_weight"] == 0:
             hyp_dict["run_cov"] = hyp_cov
@@ -705,10 +705,11 @@ def _get_hyp_cov(
                 hyp = iteration_history["gp_hyp_full"][
                     optim_state["iter"] - 1 - i
                 ]
-                hyp_n = hyp.shape[1]
-                if len(hyp_list) == 0 or np.shape(hyp_list)[2] == hyp.shape[0]:
-                    hyp_list.append(hyp.T)
-                    w_list.append(w * np.ones((hyp_n, 1)) / hyp_n)
+                # One row per hyperparameter sample
+                s_n = hyp.shape[0]
+                if len(hyp_list) == 0 or hyp_list[0].shape[1] == hyp.shape[1]:
+                    hyp_list.append(hyp)
+                    w_list.append(w * np.ones((s_n, 1)) / s_n)
 
             w_list = np.concatenate(w_list)
             hyp_list = np.concatenate(hyp_list)
@@ -722,14 +723,16 @@ def _get_hyp_cov(
             hyp_n = np.shape(hyp_list)[1]
             hyp_cov = np.zeros((hyp_n, hyp_n))
             for j in range(0, np.shape(hyp_list)[0]):
-                hyp_cov += np.dot(
-                    w_list[j],
-                    np.dot((hyp_list[j] - mu_star).T, hyp_list[j] - mu_star),
+                hyp_cov += w_list[j] * np.outer(
+                    hyp_list[j] - mu_star, hyp_list[j] - mu_star
                 )
 
-            hyp_cov /= 1 - np.sum(w_list**2)
+            norm = 1 - np.sum(w_list**2)
+            if norm <= 0:
+                # Undefined with (effectively) a single sample
+                return None
 
-            return hyp_cov
+            return hyp_cov / norm
 
         return hyp_dict["run_cov"]
 
-- 
2.43.0


From 2c2909c7665a0d193e46d3350c89c77e0ce7d4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 46/46] fix: fess: draw the given number of points from the
 posterior

---
 pyvbmc/vbmc/active_importance_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/active_importance_sampling.py b/pyvbmc/vbmc/active_importance_sampling.py
index 741a69b..16ef861 100644
--- a/pyvbmc/vbmc/active_importance_sampling.py
+++ b/pyvbmc/vbmc/active_importance_sampling.py
@@ -453,7 +453,7 @@ def fess(vp, gp, X=100):
     # If a single number is passed, interpret it as the number of samples
     if np.isscalar(X):
         N = X
-        X = vp.sample(N, orig_flag=False)
+        X, __ = vp.sample(N, orig_flag=False)
     else:
         N = X.shape[0]
 
-- 
2.43.0

