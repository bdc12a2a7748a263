From cde89015c72a3c8c5b9873201931c3eaa66d33a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 01/40] fix: give sample weights and scalar offsets the
 precision of X

float64 weights with a float32 X reached tabmat's mixed-precision kernels, which
corrupted the heap, and then failed with a buffer dtype mismatch.
---
 src/glum/_validation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index a6b2c6d..e3f2a17 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -163,7 +163,7 @@ def check_offset(
     if offset is None:
         return None
     if np.isscalar(offset):
-        return np.full(n_rows, offset)
+        return np.full(n_rows, offset, dtype=dtype)
 
     offset = skl.utils.check_array(
         offset,
@@ -197,11 +197,13 @@ def check_weights(
             raise ValueError("Sample weights must be non-negative.")
         return np.full(n_samples, sample_weight, dtype=dtype)
 
+    # The weights must have the precision of the data they belong to. Targets may
+    # be integers, however, and the weights must stay floats then.
     sample_weight = skl.utils.check_array(
         sample_weight,
         accept_sparse=False,
         ensure_2d=False,
-        dtype=[np.float64, np.float32],
+        dtype=dtype if np.issubdtype(dtype, np.floating) else [np.float64, np.float32],
         **{keyword_finiteness: force_all_finite},
     )
 
-- 
2.43.0


From 1ae13c08ec52fc0a7ca9dff62af9cd75979b79ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 02/40] fix: bring start values within the bounds on the scale
 of the solver

Start values are standardized, the bounds they were clipped to were not, so a
warm start or start_params could leave the solver outside the bounds and fit
returned infeasible coefficients. The clipping also changed coef_ in place for
models without an intercept, and start values kept a precision other than X's.
---
 src/glum/_glm.py    | 24 ++++++++++++++++--------
 src/glum/_glm_cv.py | 12 +++++++++++-
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index a7f0fd2..a876000 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -253,13 +253,17 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         offset: Optional[np.ndarray],
         col_means: np.ndarray,
         col_stds: Optional[np.ndarray],
+        lower_bounds: Optional[np.ndarray],
+        upper_bounds: Optional[np.ndarray],
         dtype,
     ) -> np.ndarray:
+        # ``lower_bounds`` and ``upper_bounds`` must be on the scale of the
+        # (possibly standardized) predictors, just as the returned coefficients.
         if self.warm_start and hasattr(self, "coef_"):
-            coef = self.coef_  # type: ignore
+            coef = np.array(self.coef_, dtype=X.dtype)  # type: ignore
             intercept = self.intercept_  # type: ignore
             if self.fit_intercept:
-                coef = np.concatenate((np.array([intercept]), coef))
+                coef = np.concatenate((np.array([intercept], dtype=X.dtype), coef))
             if self._center_predictors:
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
 
@@ -293,26 +297,28 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                     f"({len(col_means) + self.fit_intercept},)."
                 )
 
+            coef = coef.astype(X.dtype, copy=False)
+
             if self._center_predictors:
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
 
         # If starting values are outside the specified bounds (if set),
         # bring the starting value exactly at the bound.
         idx = int(self.fit_intercept)
-        if self.lower_bounds is not None:
-            if np.any(coef[idx:] < self.lower_bounds):
+        if lower_bounds is not None:
+            if np.any(coef[idx:] < lower_bounds):
                 warnings.warn(
                     "lower_bounds above starting value. Setting the starting values "
                     "to max(start_params, lower_bounds)."
                 )
-                coef[idx:] = np.maximum(coef[idx:], self.lower_bounds)
-        if self.upper_bounds is not None:
-            if np.any(coef[idx:] > self.upper_bounds):
+                coef[idx:] = np.maximum(coef[idx:], lower_bounds)
+        if upper_bounds is not None:
+            if np.any(coef[idx:] > upper_bounds):
                 warnings.warn(
                     "upper_bounds below starting value. Setting the starting values "
                     "to min(start_params, upper_bounds)."
                 )
-                coef[idx:] = np.minimum(coef[idx:], self.upper_bounds)
+                coef[idx:] = np.minimum(coef[idx:], upper_bounds)
 
         return coef
 
@@ -2831,6 +2837,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             offset,
             self.col_means_,
             self.col_stds_,
+            lower_bounds,
+            upper_bounds,
             dtype=[np.float64, np.float32],
         )
 
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 612ef4f..ff7d821 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -730,6 +730,8 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
                 offset_train,
                 self.col_means_,
                 self.col_stds_,
+                lower_bounds,
+                upper_bounds,
                 dtype=[np.float64, np.float32],
             )
 
@@ -861,7 +863,15 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         )
 
         coef = self._get_start_coef(
-            X, y, sample_weight, offset, self.col_means_, self.col_stds_, dtype=X.dtype
+            X,
+            y,
+            sample_weight,
+            offset,
+            self.col_means_,
+            self.col_stds_,
+            lower_bounds,
+            upper_bounds,
+            dtype=X.dtype,
         )
 
         if len(l1_ratio) > 1:
-- 
2.43.0


From 830b329e13500af64d9eeee92d5aab770a18a835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 03/40] fix: forget data-dependent state of an earlier fit when
 refitting

After a refit on other data, aic/aicc/bic returned the criteria of the earlier
fit, predict used the model spec or the categories of the earlier data frame and
covariance_matrix warned about the penalty of the earlier regularization path.
---
 src/glum/_glm.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index a876000..b25d3eb 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1988,6 +1988,19 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         copy_X = self._should_copy_X()
         drop_first = getattr(self, "drop_first", False)
 
+        # Drop what an earlier fit learned about other data, so that it can't be
+        # mistaken for a result of this fit if this fit doesn't set it.
+        for attribute in (
+            "X_model_spec_",
+            "y_model_spec_",
+            "has_missing_category_",
+            "_categorical_levels_",
+            "_feature_dtypes_",
+            "_alphas",
+            "_info_criteria",
+        ):
+            self.__dict__.pop(attribute, None)
+
         if nw.dependencies.is_into_dataframe(X):
             if getattr(self, "formula", None) is not None:
                 lhs, rhs = parse_formula(
-- 
2.43.0


From 217bbfdbabf27fe50f4e48021a4436aec687992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 04/40] fix: don't report convergence when the gradient is
 undefined

The minimum-norm subgradient skips nan, so that a start where the mean is outside
the range of the distribution, or a step to such a point, ended the iteration as
converged without a ConvergenceWarning.
---
 src/glum/_solvers.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index d7e6d0c..d99ae28 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -307,6 +307,14 @@ def _irls_solver(inner_solver, coef, data) -> tuple[np.ndarray, int, int, list[l
         while state.n_iter < data.max_iter and not state.converged:
             pb._update(state.n_iter, state.iteration_runtime, state.norm_min_subgrad)
 
+            if not np.isfinite(state.score).all():
+                warnings.warn(
+                    "The gradient is not finite. The mean may have left the range "
+                    "that the distribution and the link allow.",
+                    ConvergenceWarning,
+                )
+                break
+
             state.old_active_set = state.active_set
             state.active_set = identify_active_set(state, data)
 
@@ -611,7 +619,10 @@ def check_convergence(
         data.has_upper_bounds,
         data._upper_bounds,
     )
-    gradient_converged = norm_min_subgrad < state.data.gradient_tol
+    # _norm_min_subgrad skips nan, so that it is zero if the gradient is undefined
+    gradient_converged = norm_min_subgrad < state.data.gradient_tol and bool(
+        np.isfinite(state.score).all()
+    )
 
     # Simple L2 step length convergence criteria
     step_size = linalg.norm(state.step)
-- 
2.43.0


From e296652265cff42f0babe83ef11b22896ace3618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 05/40] fix: accept a numpy array as regularization path

With solver='auto' and an L1 penalty, an array for alpha was compared with zero
before alpha_search was looked at, which raised for arrays.
---
 src/glum/_glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index b25d3eb..e8ccabb 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -400,8 +400,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                         np.all(np.asarray(self.l1_ratio) == 0)
                         or (
                             hasattr(self, "alpha")
-                            and self.alpha == 0
                             and not self.alpha_search
+                            and self.alpha == 0
                         )
                     )
                 ):
@@ -409,7 +409,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 elif np.all(np.asarray(self.l1_ratio) == 0):
                     self._solver = "irls-ls"
                 elif (
-                    hasattr(self, "alpha") and self.alpha == 0 and not self.alpha_search
+                    hasattr(self, "alpha") and not self.alpha_search and self.alpha == 0
                 ):
                     self._solver = "irls-ls"
                 else:
-- 
2.43.0


From 371c8f3cf9db4f819c080c7b3dbefbfaf7e4c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 06/40] fix: forget the regularization path of an earlier fit
 when refitting

---
 src/glum/_glm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index e8ccabb..2f952e8 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1998,6 +1998,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             "_feature_dtypes_",
             "_alphas",
             "_info_criteria",
+            "coef_path_",
+            "intercept_path_",
         ):
             self.__dict__.pop(attribute, None)
 
-- 
2.43.0


From e8463c98fcd83ed240fbe5b5ee4265dc4276d3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 07/40] fix: don't write into the caller's formula context

---
 src/glum/_formula.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glum/_formula.py b/src/glum/_formula.py
index 40c381c..62af0c7 100644
--- a/src/glum/_formula.py
+++ b/src/glum/_formula.py
@@ -12,6 +12,9 @@ import numpy as np
 def capture_context(context) -> Mapping[str, Any] | None:
     if isinstance(context, int):
         context = context + 2
+    elif isinstance(context, Mapping):
+        # tabmat adds its own entries to the context
+        context = dict(context)
     return formulaic.utils.context.capture_context(context)
 
 
-- 
2.43.0


From d2e810e293ff10a10acfce23455fa7b131e21ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 08/40] fix: compute information criteria from the data they
 are asked for

---
 src/glum/_glm.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 2f952e8..5620cc2 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1997,7 +1997,6 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             "_categorical_levels_",
             "_feature_dtypes_",
             "_alphas",
-            "_info_criteria",
             "coef_path_",
             "intercept_path_",
         ):
@@ -2965,8 +2964,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
         context: Optional[Mapping[str, Any]] = None,
     ):
         """
-        Computes and stores the model's degrees of freedom, the 'aic', 'aicc'
-        and 'bic' information criteria.
+        Computes the model's degrees of freedom, the 'aic', 'aicc' and 'bic'
+        information criteria.
 
         The model's degrees of freedom are used to calculate the effective
         number of parameters. This uses the claim by [2] and [3] that, for
@@ -3012,9 +3011,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
         else:
             aicc = None
 
-        self._info_criteria = {"aic": aic, "aicc": aicc, "bic": bic}
-
-        return True
+        return {"aic": aic, "aicc": aicc, "bic": bic}
 
     def aic(
         self,
@@ -3148,8 +3145,10 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
 
         context_: Optional[Mapping[str, Any]] = capture_context(context)
 
-        if not hasattr(self, "_info_criteria"):
-            self._compute_information_criteria(X, y, sample_weight, context=context_)
+        # Not kept on the estimator: they depend on the data they are asked for.
+        info_criteria = self._compute_information_criteria(
+            X, y, sample_weight, context=context_
+        )
 
         if (
             self.alpha is None or (self.alpha is not None and self.alpha > 0)
@@ -3160,7 +3159,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
                 + "might not be well defined in these cases."
             )
 
-        return self._info_criteria[crit]
+        return info_criteria[crit]
 
 
 def get_family(
-- 
2.43.0


From 05db0f0446b13bd2bef7067d93fd52994e9c2aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 09/40] fix: don't use a fitted attribute as scratch space of
 the path solver

---
 src/glum/_glm.py    |  6 +++---
 src/glum/_glm_cv.py | 11 +++--------
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 5620cc2..339a8d0 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -687,7 +687,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         A_ineq: Optional[np.ndarray],
         b_ineq: Optional[np.ndarray],
     ) -> np.ndarray:
-        self.coef_path_ = np.empty((len(alphas), len(coef)), dtype=X.dtype)
+        coef_path = np.empty((len(alphas), len(coef)), dtype=X.dtype)
 
         for k, alpha in enumerate(alphas):
             P1 = P1_no_alpha * alpha
@@ -716,9 +716,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                     f"alpha={alpha:.3e}, time={toc - tic:.2f}s, n_iter={self.n_iter_}"
                 )
 
-            self.coef_path_[k, :] = coef
+            coef_path[k, :] = coef
 
-        return self.coef_path_
+        return coef_path
 
     def report_diagnostics(
         self,
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index ff7d821..3d5e461 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -879,12 +879,9 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         else:
             refit_alphas = self.alphas_
 
-        # _solve_regularization_path overwrites self.coef_path_; save and
-        # restore the per-fold paths so the public attribute is unchanged.
-        # It also overwrites n_iter_, _n_cycles, and diagnostics_, but those
-        # just reflect whichever fold ran last, so we let the refit values stand.
-        _cv_coef_path = self.coef_path_
-
+        # _solve_regularization_path overwrites n_iter_, _n_cycles, and diagnostics_,
+        # but those just reflect whichever fold ran last, so we let the refit values
+        # stand.
         coef = self._solve_regularization_path(
             X=X,
             y=y,
@@ -900,8 +897,6 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             b_ineq=b_ineq,
         )
 
-        self.coef_path_ = _cv_coef_path
-
         if self.fit_intercept:
             self._refit_intercept_path, self._refit_coef_path = unstandardize(
                 self.col_means_, self.col_stds_, coef[:, 0], coef[:, 1:]
-- 
2.43.0


From b2907ac4930d19b626273c0317f04525bde4c11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 10/40] fix: keep the folds' means and standard deviations off
 the shared estimator

---
 src/glum/_glm_cv.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 3d5e461..47b8351 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -694,10 +694,12 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             P1_no_alpha = setup_p1(P1, X, X.dtype, 1, l1)
             P2_no_alpha = setup_p2(P2, X, _stype, X.dtype, 1, l1)
 
+            # The folds may be fitted on threads that share self, so nothing that
+            # differs between them is stored on it.
             (
                 x_train,
-                self.col_means_,
-                self.col_stds_,
+                col_means,
+                col_stds,
                 lower_bounds,
                 upper_bounds,
                 A_ineq,
@@ -728,8 +730,8 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
                 y_train,
                 w_train,
                 offset_train,
-                self.col_means_,
-                self.col_stds_,
+                col_means,
+                col_stds,
                 lower_bounds,
                 upper_bounds,
                 dtype=[np.float64, np.float32],
@@ -766,7 +768,7 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             # x and coefficient rescaling differs by self.fit_intercept.
             if self.fit_intercept:
                 intercept_path_, coef_path_ = unstandardize(
-                    self.col_means_, self.col_stds_, coef[:, 0], coef[:, 1:]
+                    col_means, col_stds, coef[:, 0], coef[:, 1:]
                 )
                 assert isinstance(intercept_path_, np.ndarray)  # make mypy happy
                 full_coef_path = np.concatenate(
@@ -776,7 +778,7 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             else:
                 # set intercept to zero as the other linear models do
                 intercept_path_, coef_path_ = unstandardize(
-                    self.col_means_, self.col_stds_, np.zeros(coef.shape[0]), coef
+                    col_means, col_stds, np.zeros(coef.shape[0]), coef
                 )
                 deviance_path_ = [_get_deviance(_coef) for _coef in coef_path_]
 
-- 
2.43.0


From 11159c01e196998de675854746f05552351d3d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 11/40] fix: bring start values to the scale of the solver
 without an intercept, too

---
 src/glum/_glm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 339a8d0..df6e7f2 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -56,6 +56,7 @@ from ._typing import (
     WaldTestResult,
 )
 from ._utils import (
+    _one_over_var_inf_to_val,
     add_missing_categories,
     align_df_categories,
     expand_categorical_penalties,
@@ -266,6 +267,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 coef = np.concatenate((np.array([intercept], dtype=X.dtype), coef))
             if self._center_predictors:
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
+            elif col_stds is not None:
+                coef /= _one_over_var_inf_to_val(col_stds, 1.0)
 
         elif self.start_params is None:
             if self.fit_intercept:
@@ -301,6 +304,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
 
             if self._center_predictors:
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
+            elif col_stds is not None:
+                coef /= _one_over_var_inf_to_val(col_stds, 1.0)
 
         # If starting values are outside the specified bounds (if set),
         # bring the starting value exactly at the bound.
-- 
2.43.0


From 9020d530e780267e164c972906e3f637ecef0a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 12/40] fix: accept start values for a single predictor

---
 src/glum/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 320cd52..21f9977 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -275,10 +275,10 @@ def standardize_warm_start(  # noda D
     coef: np.ndarray, col_means: np.ndarray, col_stds: Optional[np.ndarray]
 ) -> None:
     if col_stds is None:
-        coef[0] += np.squeeze(col_means).dot(coef[1:])
+        coef[0] += np.ravel(col_means).dot(coef[1:])
     else:
         coef[1:] *= col_stds
-        coef[0] += np.squeeze(col_means * _one_over_var_inf_to_val(col_stds, 1)).dot(
+        coef[0] += np.ravel(col_means * _one_over_var_inf_to_val(col_stds, 1)).dot(
             coef[1:]
         )
 
-- 
2.43.0


From 5b0ecc01f34bc54654e078cb43fb7e9085119823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 13/40] fix: show the progress of fits with a zero or undefined
 gradient

---
 src/glum/_solvers.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index d99ae28..c18c3d1 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -412,9 +412,7 @@ class ProgressBar:
         """Run the tqdm progress bar."""
         if not self.verbose:
             return self
-        bar_start_loggrad = np.log10(self.start_norm)
-        bar_end_loggrad = np.log10(self.tol)
-        self.n_bar_steps = np.ceil(bar_start_loggrad - bar_end_loggrad)
+        self.n_bar_steps = np.ceil(self._n_steps_to_go(self.start_norm))
         # Wait to import so that if verbose=False, we don't need tqdm installed
         from tqdm import tqdm
 
@@ -431,6 +429,13 @@ class ProgressBar:
         if self.verbose:
             self.t.close()
 
+    def _n_steps_to_go(self, grad_norm):
+        """Return by how many orders of magnitude ``grad_norm`` exceeds ``tol``."""
+        if not np.isfinite(grad_norm):
+            return 0.0
+        # the norm may be exactly zero
+        return np.log10(max(grad_norm, self.tol)) - np.log10(self.tol)
+
     def _update(self, n_iter, iteration_runtime, cur_grad_norm):
         if not self.verbose:
             return
@@ -439,7 +444,10 @@ class ProgressBar:
         self.t.postfix[2] = cur_grad_norm
         # clip to 0 in case we take a step in the wrong direction at the start
         # without this, tqdm will print an annoying warning.
-        step = max(self.n_bar_steps - (np.log10(cur_grad_norm) - np.log10(self.tol)), 0)
+        if np.isfinite(cur_grad_norm):
+            step = max(self.n_bar_steps - self._n_steps_to_go(cur_grad_norm), 0)
+        else:
+            step = 0
         # round to two digits for beauty
         self.t.n = np.round(step, 2)
         self.t.update(0)
-- 
2.43.0


From 5e3a13a96656dbd0b694156ce9a7b0b5b7221ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 14/40] fix: take the offset into account when generating the
 regularization path

---
 src/glum/_glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index df6e7f2..34a9d72 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -497,6 +497,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 sample_weight=w,
                 link=self._link_instance,
                 distribution=self._family_instance,
+                eta=offset,
             )
         else:
             intercept_offset = 0
-- 
2.43.0


From 31f29eb93c143206ffe8185548e67c3b26af91df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 15/40] fix: keep penalties in the precision of X

With float32 data, an array of penalty factors P1 was refused, and NumPy scalars
or arrays for alpha turned the penalties into float64, which the coordinate
descent rejects.
---
 src/glum/_glm.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 34a9d72..27b50a5 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -696,8 +696,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         coef_path = np.empty((len(alphas), len(coef)), dtype=X.dtype)
 
         for k, alpha in enumerate(alphas):
-            P1 = P1_no_alpha * alpha
-            P2 = P2_no_alpha * alpha
+            # a NumPy scalar must not change the precision of the penalties
+            P1 = P1_no_alpha * float(alpha)
+            P2 = P2_no_alpha * float(alpha)
 
             tic = time.perf_counter()
 
@@ -2915,7 +2916,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             if self.alpha is None:
                 _alpha = 0.0
             else:
-                _alpha = self.alpha
+                # a NumPy scalar must not change the precision of the penalties
+                _alpha = float(self.alpha)
             if _alpha > 0 and self.l1_ratio > 0 and self._solver != "irls-cd":
                 raise ValueError(
                     f"The chosen solver (solver={self._solver}) can't deal "
@@ -3273,7 +3275,7 @@ def setup_p1(
     else:
         P1 = np.atleast_1d(P1)
         try:
-            P1 = P1.astype(dtype, casting="safe", copy=False)  # type: ignore
+            P1 = P1.astype(dtype, casting="same_kind", copy=False)  # type: ignore
         except TypeError as e:
             raise TypeError(
                 "The given P1 cannot be converted to a numeric array; "
@@ -3346,7 +3348,7 @@ def setup_p2(
             )
 
     # P1 and P2 are now for sure copies
-    P2 = alpha * (1 - l1_ratio) * P2  # type: ignore
+    P2 = (alpha * (1 - l1_ratio) * P2).astype(dtype)  # type: ignore
     # one only ever needs the symmetrized L2 penalty matrix 1/2 (P2 + P2')
     # reason: w' P2 w = (w' P2 w)', i.e. it is symmetric
     if P2.ndim == 2:  # type: ignore
-- 
2.43.0


From 831cfbc3b2bbea1d248d299345d52b086caef5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 16/40] fix: evaluate the objective of scipy's solvers in the
 precision of X

trust-constr iterates in float64, which sparse float32 data rejected.
---
 src/glum/_solvers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index c18c3d1..171465f 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -876,6 +876,8 @@ def _get_obj_and_derivative(
     link: Link,
     offset: np.ndarray = None,
 ):
+    # scipy may hand over float64 coefficients for float32 data
+    coef = np.asarray(coef, dtype=X.dtype)
     mu, devp = family._mu_deviance_derivative(coef, X, y, sample_weight, link, offset)
     dev = family.deviance(y, mu, sample_weight)
     intercept = coef.size == X.shape[1] + 1
-- 
2.43.0


From 3a29f5d8a07acc0580a5e68c04b624507b6cace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 17/40] fix: match offsets and targets with rows by position
 when predicting and scoring

predict returned a Series for an offset given as a Series, and score then matched
it with the target by index, while fit matches both by position.
---
 src/glum/_glm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 27b50a5..e0833ee 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -920,6 +920,10 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 f"is expecting {self.n_features_in_} features as input."
             )
 
+        if offset is not None:
+            # by position, like in fit, whatever the index of a Series
+            offset = np.asarray(offset)
+
         if alpha_index is None:
             xb = X @ coef_path + intercept_path
             if offset is not None:
@@ -1796,6 +1800,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         float
             D^2 of self.predict(X) w.r.t. y.
         """
+        y = np.asarray(y)
         sample_weight = check_weights(sample_weight, y.shape[0], y.dtype)
 
         mu = self.predict(X, offset=offset, context=context)
-- 
2.43.0


From 4e72adb1b636817c6f6d22e71df8fe69a5f68301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 18/40] fix: weight predictions of lists and of several
 penalties

predict with sample weights needed the shape and dtype of X, which lists lack, and
multiplied the wrong axis when predictions for several penalties were asked for.
---
 src/glum/_glm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index e0833ee..b722466 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1006,9 +1006,10 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         if sample_weight is None:
             return mu
 
-        sample_weight = check_weights(sample_weight, X.shape[0], X.dtype)
+        sample_weight = check_weights(sample_weight, mu.shape[0], mu.dtype)
 
-        return mu * sample_weight
+        # one column per penalty if a sequence of them was passed
+        return mu * sample_weight if mu.ndim == 1 else mu * sample_weight[:, np.newaxis]
 
     def coef_table(
         self,
-- 
2.43.0


From 06971a6a3d1e74aa5db1b6cb41778449d8fb2ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 19/40] fix: pass cat_missing_name on to formulas

---
 src/glum/_glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index b722466..974cef7 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2045,6 +2045,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                     ensure_full_rank=self.drop_first,
                     categorical_format=self.categorical_format,
                     cat_missing_method=self.cat_missing_method,
+                    cat_missing_name=self.cat_missing_name,
                     interaction_separator=self.interaction_separator,
                     add_column_for_intercept=False,
                     context=context,
-- 
2.43.0


From 200077623d71bcb1aa26a4395a4ae4885e554514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 20/40] fix: warn when trust-constr ends outside the
 constraints

---
 src/glum/_solvers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index 171465f..c4a0248 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -1002,6 +1002,13 @@ def _trust_constr_solver(
             f"trust-constr failed with message: {res['message']}",
             ConvergenceWarning,
         )
+    # scipy also reports success when the steps become too small to get feasible
+    elif res["constr_violation"] > 1e-6:
+        warnings.warn(
+            "trust-constr failed to converge: max constraint violation "
+            f"{res['constr_violation']:.2e} after {res['nit']} iterations.",
+            ConvergenceWarning,
+        )
 
     return res["x"], res["nit"], -1, None
 
-- 
2.43.0


From ff7d291ed9b09615cf485d0520ac543a3b179aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 21/40] fix: reject crossing bounds in cross-validation, too

---
 src/glum/_glm_cv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 47b8351..dcdbe55 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -634,6 +634,10 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         lower_bounds = check_bounds(self.lower_bounds, X.shape[1], X.dtype)
         upper_bounds = check_bounds(self.upper_bounds, X.shape[1], X.dtype)
 
+        if (lower_bounds is not None) and (upper_bounds is not None):
+            if np.any(lower_bounds > upper_bounds):
+                raise ValueError("Upper bounds must be higher than lower bounds.")
+
         if self.monotonic_constraints is not None:
             A_ineq, b_ineq = self._resolve_monotonic_constraints()
         elif self.A_ineq is not None and self.b_ineq is not None:
-- 
2.43.0


From 16f6114448409fd3aca65f7f5caa3f0ebbc52527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 22/40] fix: validate inequality constraints in
 cross-validation as elsewhere

---
 src/glum/_glm_cv.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index dcdbe55..5dc6479 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -1,4 +1,3 @@
-import copy
 from collections.abc import Mapping, Sequence
 from typing import Any, Optional, Union
 
@@ -14,7 +13,7 @@ from ._linalg import _safe_lin_pred, is_pos_semidef
 from ._link import Link, LogLink
 from ._typing import ArrayLike
 from ._utils import standardize, unstandardize
-from ._validation import check_bounds
+from ._validation import check_bounds, check_inequality_constraints
 
 
 class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
@@ -640,11 +639,12 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
 
         if self.monotonic_constraints is not None:
             A_ineq, b_ineq = self._resolve_monotonic_constraints()
-        elif self.A_ineq is not None and self.b_ineq is not None:
-            A_ineq = copy.copy(self.A_ineq)
-            b_ineq = copy.copy(self.b_ineq)
         else:
-            A_ineq, b_ineq = None, None
+            A_ineq, b_ineq = self.A_ineq, self.b_ineq
+
+        A_ineq, b_ineq = check_inequality_constraints(
+            A_ineq, b_ineq, n_features=X.shape[1], dtype=X.dtype
+        )
 
         cv = skl.model_selection.check_cv(self.cv)
 
-- 
2.43.0


From fa709760b03956f9f37c9cbbb6433205bbe33957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 23/40] fix: don't select a penalty whose deviance is undefined

---
 src/glum/_glm_cv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 5dc6479..bee9845 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -832,8 +832,10 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
 
         avg_deviance = self.deviance_path_.mean(axis=0)  # type: ignore
 
+        # a penalty whose deviance is undefined on some fold is never the best one
         best_l1, best_alpha = np.unravel_index(
-            np.argmin(avg_deviance), avg_deviance.shape
+            np.argmin(np.where(np.isnan(avg_deviance), np.inf, avg_deviance)),
+            avg_deviance.shape,
         )
 
         if len(l1_ratio) > 1:
-- 
2.43.0


From 0d3d49839556dd0796b8c857557f28a2cfc7ebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 24/40] fix: accept splitters that need the data to count their
 splits

---
 src/glum/_glm_cv.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index bee9845..90eb358 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -810,24 +810,27 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
 
         paths_data = joblib.Parallel(n_jobs=self.n_jobs, prefer="processes")(jobs)
 
+        # some splitters, e.g. leave-one-out, need the data to count their splits
+        n_splits = cv.get_n_splits(X, y)
+
         self.intercept_path_ = np.reshape(
             [elmt[0] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0]), -1),
+            (n_splits, len(l1_ratio), len(alphas[0]), -1),
         )
 
         self.coef_path_ = np.reshape(
             [elmt[1] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0]), -1),
+            (n_splits, len(l1_ratio), len(alphas[0]), -1),
         )
 
         self.deviance_path_ = np.reshape(
             [elmt[2] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0])),
+            (n_splits, len(l1_ratio), len(alphas[0])),
         )
 
         self.train_deviance_path_ = np.reshape(
             [elmt[3] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0])),
+            (n_splits, len(l1_ratio), len(alphas[0])),
         )
 
         avg_deviance = self.deviance_path_.mean(axis=0)  # type: ignore
-- 
2.43.0


From 89549bf9c869024f1ce03f9d3ec1ec44ce60a34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 25/40] fix: time benchmarks with a monotonic clock

---
 glum_benchmarks/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glum_benchmarks/util.py b/glum_benchmarks/util.py
index f5543b0..7245fbd 100644
--- a/glum_benchmarks/util.py
+++ b/glum_benchmarks/util.py
@@ -60,9 +60,9 @@ def runtime(f, iterations, *args, timeout=None, **kwargs):
             signal.alarm(int(timeout))
 
         try:
-            start = time.time()
+            start = time.perf_counter()
             out = f(*args, **kwargs)
-            end = time.time()
+            end = time.perf_counter()
             runtime_val = end - start
             successful_runs.append((runtime_val, out, i))
         except TimeoutError:
-- 
2.43.0


From 33d62c3e91566660b73e7144aa7a1436091fbb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 26/40] fix: respect fractions of a second in benchmark
 timeouts

---
 glum_benchmarks/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glum_benchmarks/util.py b/glum_benchmarks/util.py
index 7245fbd..309ea77 100644
--- a/glum_benchmarks/util.py
+++ b/glum_benchmarks/util.py
@@ -57,7 +57,7 @@ def runtime(f, iterations, *args, timeout=None, **kwargs):
                 raise TimeoutError(f"Iteration {i + 1} exceeded {timeout}s timeout")
 
             old_handler = signal.signal(signal.SIGALRM, _iter_timeout_handler)
-            signal.alarm(int(timeout))
+            signal.setitimer(signal.ITIMER_REAL, timeout)
 
         try:
             start = time.perf_counter()
@@ -71,7 +71,7 @@ def runtime(f, iterations, *args, timeout=None, **kwargs):
         finally:
             # Cancel alarm and restore handler
             if timeout is not None:
-                signal.alarm(0)
+                signal.setitimer(signal.ITIMER_REAL, 0)
                 signal.signal(signal.SIGALRM, old_handler)
 
     if not successful_runs:
-- 
2.43.0


From caa1b87fe3e9f3f58798990f1c5dc3746ae31634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 27/40] fix: let benchmark timeouts strike at any moment

---
 glum_benchmarks/util.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/glum_benchmarks/util.py b/glum_benchmarks/util.py
index 309ea77..5d5830a 100644
--- a/glum_benchmarks/util.py
+++ b/glum_benchmarks/util.py
@@ -50,28 +50,35 @@ def runtime(f, iterations, *args, timeout=None, **kwargs):
     successful_runs = []  # (runtime, output, iteration_index) tuples
 
     for i in range(iterations):
-        # Set up timeout for this iteration if requested
         if timeout is not None:
+            old_handler = signal.getsignal(signal.SIGALRM)
 
-            def _iter_timeout_handler(signum, frame):
-                raise TimeoutError(f"Iteration {i + 1} exceeded {timeout}s timeout")
-
-            old_handler = signal.signal(signal.SIGALRM, _iter_timeout_handler)
-            signal.setitimer(signal.ITIMER_REAL, timeout)
+        def _iter_timeout_handler(signum, frame):
+            raise TimeoutError(f"Iteration {i + 1} exceeded {timeout}s timeout")
 
         try:
-            start = time.perf_counter()
-            out = f(*args, **kwargs)
-            end = time.perf_counter()
-            runtime_val = end - start
-            successful_runs.append((runtime_val, out, i))
+            # The alarm may go off anywhere between setting and cancelling it
+            try:
+                # Set up timeout for this iteration if requested
+                if timeout is not None:
+                    signal.signal(signal.SIGALRM, _iter_timeout_handler)
+                    signal.setitimer(signal.ITIMER_REAL, timeout)
+
+                start = time.perf_counter()
+                out = f(*args, **kwargs)
+                end = time.perf_counter()
+                runtime_val = end - start
+                successful_runs.append((runtime_val, out, i))
+            finally:
+                # Cancel alarm
+                if timeout is not None:
+                    signal.setitimer(signal.ITIMER_REAL, 0)
         except TimeoutError:
             # This iteration timed out, continue to next iteration
             pass
         finally:
-            # Cancel alarm and restore handler
+            # Restore handler
             if timeout is not None:
-                signal.setitimer(signal.ITIMER_REAL, 0)
                 signal.signal(signal.SIGALRM, old_handler)
 
     if not successful_runs:
-- 
2.43.0


From bd32f38b441f33123f279b8b18f1225442900fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 28/40] fix: replace stored benchmark results only by complete
 ones

---
 glum_benchmarks/run_benchmarks.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/glum_benchmarks/run_benchmarks.py b/glum_benchmarks/run_benchmarks.py
index 9bb10f0..6df329f 100644
--- a/glum_benchmarks/run_benchmarks.py
+++ b/glum_benchmarks/run_benchmarks.py
@@ -24,7 +24,7 @@ import pickle
 import re
 import shutil
 import warnings
-from contextlib import nullcontext
+from contextlib import contextmanager, nullcontext
 from itertools import product
 from pathlib import Path
 from typing import cast
@@ -55,6 +55,20 @@ from glum_benchmarks.util import (
 _RICH_CONSOLE = Console()
 
 
+@contextmanager
+def _replace_when_complete(path: Path):
+    """Yield the path of a temporary file that replaces ``path`` once complete.
+
+    If writing fails, ``path`` is left as it was.
+    """
+    tmp_path = path.with_name(path.name + ".tmp")
+    try:
+        yield tmp_path
+        tmp_path.replace(path)
+    finally:
+        tmp_path.unlink(missing_ok=True)
+
+
 def _parse_problem_name(name: str) -> tuple[str, str, str]:
     """Parse problem name into (dataset, regularization, distribution).
 
@@ -269,8 +283,9 @@ def run_all_benchmarks(config: BenchmarkConfig):
 
             # Save result
             fname = params.get_result_fname() + ".pkl"
-            with open(config.pickle_dir / fname, "wb") as f:
-                pickle.dump(result, f)
+            with _replace_when_complete(config.pickle_dir / fname) as tmp_path:
+                with open(tmp_path, "wb") as f:
+                    pickle.dump(result, f)
 
             if result.get("timed_out"):
                 print(f"-> TIMEOUT ({config.timeout}s)")
@@ -419,7 +434,8 @@ def analyze_results(config: BenchmarkConfig) -> pd.DataFrame:
 
     # Export to CSV for figure generation and reproducibility
     config.csv_file.parent.mkdir(parents=True, exist_ok=True)
-    df.reset_index().to_csv(config.csv_file, index=False)
+    with _replace_when_complete(config.csv_file) as tmp_path:
+        df.reset_index().to_csv(tmp_path, index=False)
     print(f"\nExported results to: {config.csv_file}")
 
     return df.reset_index()
-- 
2.43.0


From bc099f19a9345acedb05aea56f0e3b0bf0ecbe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 29/40] fix: compare benchmarks of the same K\/N ratio only

---
 glum_benchmarks/compare_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glum_benchmarks/compare_results.py b/glum_benchmarks/compare_results.py
index de95c61..0453cc7 100644
--- a/glum_benchmarks/compare_results.py
+++ b/glum_benchmarks/compare_results.py
@@ -34,7 +34,7 @@ def main() -> int:
     base = pd.read_csv(Path(args.base))
     head = pd.read_csv(Path(args.head))
 
-    keys = ["problem_name", "library_name", "num_rows", "alpha"]
+    keys = ["problem_name", "library_name", "num_rows", "k_over_n_ratio", "alpha"]
     merged = base.merge(head, on=keys, suffixes=("_base", "_head"), how="inner")
 
     # delta_sec: absolute slowdown
-- 
2.43.0


From 79ad995f3916c2517cb02a9c54bc5d2e8372a128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:31 +0000
Subject: [PATCH 30/40] fix: don't report convergence where a constraint's
 penalty holds the coefficients inside

A constraint that was violated by rounding when its penalty was set up, and
is satisfied by the next iterate, still pulled towards its boundary, and the
penalized optimality conditions counted as convergence.
---
 src/glum/_solvers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index c4a0248..5dbcf85 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -1088,7 +1088,8 @@ def _monotonic_irls_solver(
             pb._update(state.n_iter, state.iteration_runtime, state.norm_min_subgrad)
 
             violations = A_ineq @ state.coef[idx:] - b_ineq
-            if np.any(violations > 0):
+            penalized = violations > 0
+            if np.any(penalized):
                 constraint_lam = min(
                     constraint_lam * constraint_lam_factor, constraint_lam_max
                 )
@@ -1132,6 +1133,11 @@ def _monotonic_irls_solver(
                 violations = A_ineq @ state.coef[idx:] - b_ineq
                 if np.any(violations > 1e-6):
                     state.converged = False
+                # constraints that hold now must not keep the coefficients in place
+                released = penalized & (violations < 0)
+                pull = constraint_lam * (A_ineq[released].T @ violations[released])
+                if np.any(np.abs(pull) > data.gradient_tol):
+                    state.converged = False
 
             state._record_iteration()
 
-- 
2.43.0


From 4b389c5cbe1185324a0e64315fed20cda7993aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:20 +0000
Subject: [PATCH 31/40] fix: add noise to benchmark data without seeding the
 global random state

---
 glum_benchmarks/data/create_housing.py   | 7 ++++---
 glum_benchmarks/data/create_insurance.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/glum_benchmarks/data/create_housing.py b/glum_benchmarks/data/create_housing.py
index e4c381c..fcd1be8 100644
--- a/glum_benchmarks/data/create_housing.py
+++ b/glum_benchmarks/data/create_housing.py
@@ -43,12 +43,13 @@ def create_housing_raw_data() -> None:
 
 def add_noise(df: pd.DataFrame, noise: float) -> pd.DataFrame:
     """Add noise by swapping out data points."""
-    np.random.seed(43212)
+    # not the global stream, which belongs to the caller
+    rand = np.random.RandomState(43212)
     for col in df.columns:
         if col in ["price", "above_median_price"]:
             continue
-        swap = np.random.uniform(size=len(df)) < noise
-        shuffle = np.random.choice(df[col], size=len(df))
+        swap = rand.uniform(size=len(df)) < noise
+        shuffle = rand.choice(df[col], size=len(df))
         df.loc[swap, col] = shuffle[swap]
 
     return df
diff --git a/glum_benchmarks/data/create_insurance.py b/glum_benchmarks/data/create_insurance.py
index 2f9636a..a86dad8 100644
--- a/glum_benchmarks/data/create_insurance.py
+++ b/glum_benchmarks/data/create_insurance.py
@@ -375,12 +375,13 @@ def gen_col_trans() -> tuple[Any, list[str]]:
 
 def add_noise(df: pd.DataFrame, noise: float) -> pd.DataFrame:
     """Add noise by swapping out data points."""
-    np.random.seed(43212)
+    # not the global stream, which belongs to the caller
+    rand = np.random.RandomState(43212)
     for col in df.columns:
         if col in ["ClaimNb", "Exposure", "ClaimAmountCut", "ClaimNb_pos"]:
             continue
-        swap = np.random.uniform(size=len(df)) < noise
-        shuffle = np.random.choice(df[col], size=len(df))
+        swap = rand.uniform(size=len(df)) < noise
+        shuffle = rand.choice(df[col], size=len(df))
         df.loc[swap, col] = shuffle[swap]
 
     return df
-- 
2.43.0


From 378316a478bc1af78bf6109f67d48bc481508980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:20 +0000
Subject: [PATCH 32/40] fix: simulate sparse features from the seed, too

---
 glum_benchmarks/data/simulated_glm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glum_benchmarks/data/simulated_glm.py b/glum_benchmarks/data/simulated_glm.py
index 6d945aa..1788023 100644
--- a/glum_benchmarks/data/simulated_glm.py
+++ b/glum_benchmarks/data/simulated_glm.py
@@ -138,7 +138,9 @@ def simulate_mixed_data(
 
     # Creating sparse component
     sparse_feature_names = [f"sparse{i}" for i in range(sparse_features)]
-    X_sparse = sps.random(n_rows, sparse_features, density=sparse_density).toarray()
+    X_sparse = sps.random(
+        n_rows, sparse_features, density=sparse_density, random_state=rand
+    ).toarray()
     X_sparse = pd.DataFrame(data=X_sparse, columns=sparse_feature_names)
     coefs_sparse = rand.choice([0, 1, -1], size=sparse_features)
     coefs_sparse = pd.Series(data=coefs_sparse, index=sparse_feature_names)
-- 
2.43.0


From 232033a33dfa993e67677811c0d816c864631be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:20 +0000
Subject: [PATCH 33/40] fix: draw the same rows of the real insurance data each
 time

---
 glum_benchmarks/data/create_insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glum_benchmarks/data/create_insurance.py b/glum_benchmarks/data/create_insurance.py
index a86dad8..eb13723 100644
--- a/glum_benchmarks/data/create_insurance.py
+++ b/glum_benchmarks/data/create_insurance.py
@@ -463,7 +463,7 @@ def generate_real_insurance_dataset(
 
     # subsample
     if num_rows is not None:
-        idx = df.sample(n=num_rows).index
+        idx = df.sample(n=num_rows, random_state=12345).index
         df = df.loc[idx].reset_index(drop=True)
         X = X.loc[idx].reset_index(drop=True)
 
-- 
2.43.0


From c9810f1fc6a49f68abe08f6c5a3ac518219c95a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:20 +0000
Subject: [PATCH 34/40] fix: store raw benchmark data only when complete

---
 glum_benchmarks/data/create_housing.py   | 4 +++-
 glum_benchmarks/data/create_insurance.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/glum_benchmarks/data/create_housing.py b/glum_benchmarks/data/create_housing.py
index fcd1be8..4b7173a 100644
--- a/glum_benchmarks/data/create_housing.py
+++ b/glum_benchmarks/data/create_housing.py
@@ -38,7 +38,9 @@ def create_housing_raw_data() -> None:
     # Save
     out_path = git_root("data/housing.parquet")
     os.makedirs(os.path.dirname(out_path), exist_ok=True)
-    df_house.to_parquet(git_root("data/housing.parquet"))
+    # Only a complete file gets the name that loading looks for
+    df_house.to_parquet(out_path + ".tmp")
+    os.replace(out_path + ".tmp", out_path)
 
 
 def add_noise(df: pd.DataFrame, noise: float) -> pd.DataFrame:
diff --git a/glum_benchmarks/data/create_insurance.py b/glum_benchmarks/data/create_insurance.py
index eb13723..c82cc29 100644
--- a/glum_benchmarks/data/create_insurance.py
+++ b/glum_benchmarks/data/create_insurance.py
@@ -91,7 +91,9 @@ def create_insurance_raw_data(verbose=False) -> None:
 
     out_path = git_root("data/insurance.parquet")
     os.makedirs(os.path.dirname(out_path), exist_ok=True)
-    df.to_parquet(out_path)
+    # Only a complete file gets the name that loading looks for
+    df.to_parquet(out_path + ".tmp")
+    os.replace(out_path + ".tmp", out_path)
 
 
 class Categorizer(BaseEstimator, TransformerMixin):
-- 
2.43.0


From c53311f308c4ae0d22d26df4a49299d3e0ac6014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:32 +0000
Subject: [PATCH 35/40] fix: migrate the categories of old models once only

---
 src/glum/_glm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 974cef7..7f6d941 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -197,6 +197,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             # Keep feature_dtypes_ for the deprecated property
             self._feature_dtypes_ = state["feature_dtypes_"]
 
+        # Once migrated, it must not be taken for the state of a later fit
+        self.__dict__.pop("feature_dtypes_", None)
+
         # Set default values for attributes that may be missing in old models
         # This handles models pickled with older versions of glum 3.x
         attribute_defaults = {
-- 
2.43.0


From 9b24e004320767458ea6740219f0f071a12e20a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:53 +0000
Subject: [PATCH 36/40] fix: replace documentation files and the config
 snapshot only when complete

---
 glum_benchmarks/run_benchmarks.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/glum_benchmarks/run_benchmarks.py b/glum_benchmarks/run_benchmarks.py
index 6df329f..af68b9c 100644
--- a/glum_benchmarks/run_benchmarks.py
+++ b/glum_benchmarks/run_benchmarks.py
@@ -955,7 +955,8 @@ def update_docs(config: BenchmarkConfig):
     for fig_name in sorted(all_needed):
         src = config.figure_dir / fig_name
         dest = config.docs_static_dir / fig_name
-        shutil.copy2(src, dest)
+        with _replace_when_complete(dest) as tmp_path:
+            shutil.copy2(src, tmp_path)
         print(f"Copied: {fig_name} -> docs/_static/")
 
     # Update benchmarks.rst
@@ -1001,8 +1002,9 @@ def update_docs(config: BenchmarkConfig):
                     )
                     total_figs += len(group)
 
-                with open(config.benchmarks_rst, "w") as f:
-                    f.write(rst_content)
+                with _replace_when_complete(config.benchmarks_rst) as tmp_path:
+                    with open(tmp_path, "w") as f:
+                        f.write(rst_content)
                 print(f"\nUpdated: {config.benchmarks_rst}")
                 print(
                     f"Replaced {min(len(docs_figure_groups), len(blocks))} block(s) "
@@ -1023,10 +1025,9 @@ def update_docs(config: BenchmarkConfig):
 
             if dark_exists:
                 # Copy dark version too
-                shutil.copy2(
-                    config.figure_dir / dark_name,
-                    config.docs_static_dir / dark_name,
-                )
+                dark_dest = config.docs_static_dir / dark_name
+                with _replace_when_complete(dark_dest) as tmp_path:
+                    shutil.copy2(config.figure_dir / dark_name, tmp_path)
                 print(f"Copied: {dark_name} -> docs/_static/")
                 light_ref = f"docs/_static/{fig_name}#gh-light-mode-only"
                 dark_ref = f"docs/_static/{dark_name}#gh-dark-mode-only"
@@ -1053,8 +1054,9 @@ def update_docs(config: BenchmarkConfig):
                     re.DOTALL,
                 )
                 updated_md = pattern.sub(md_new_content, md_content)
-                with open(config.readme_file, "w") as f:
-                    f.write(updated_md)
+                with _replace_when_complete(config.readme_file) as tmp_path:
+                    with open(tmp_path, "w") as f:
+                        f.write(updated_md)
                 print(f"\nUpdated: {config.readme_file}")
                 print(f"Inserted {len(readme_fig_names)} figure references.")
             else:
@@ -1083,8 +1085,9 @@ def update_docs(config: BenchmarkConfig):
                     re.DOTALL,
                 )
                 updated_idx = pattern.sub(idx_new_content, idx_content)
-                with open(config.index_rst, "w") as f:
-                    f.write(updated_idx)
+                with _replace_when_complete(config.index_rst) as tmp_path:
+                    with open(tmp_path, "w") as f:
+                        f.write(updated_idx)
                 print(f"\nUpdated: {config.index_rst}")
                 print(f"Inserted {len(readme_fig_names)} headline figure(s).")
             else:
@@ -1146,7 +1149,8 @@ def main():
     # Snapshot config for reproducibility only when new benchmarks are run.
     if config.run_benchmarks:
         config.results_dir.mkdir(parents=True, exist_ok=True)
-        shutil.copy2(config_file, config.results_dir / "config.yaml")
+        with _replace_when_complete(config.results_dir / "config.yaml") as tmp_path:
+            shutil.copy2(config_file, tmp_path)
         print(f"Config snapshot saved to: {config.results_dir / 'config.yaml'}")
 
 
-- 
2.43.0


From d9e4b1a87e1dd6c929e24f96a235ef7f772426c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:53 +0000
Subject: [PATCH 37/40] fix: treat the same columns as constant as the matrix
 that is standardized

---
 src/glum/_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 21f9977..35734be 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -306,7 +306,8 @@ def _one_over_var_inf_to_val(arr: np.ndarray, val: float) -> np.ndarray:
 
     If values are zeros, return val.
     """
-    zeros = np.where(np.abs(arr) < 10 * np.sqrt(np.finfo(arr.dtype).eps))
+    # Must agree with the columns that tabmat leaves unscaled in `standardize`.
+    zeros = np.where(np.abs(arr) < 1e-7)
     with np.errstate(divide="ignore"):
         one_over = 1 / arr
     one_over[zeros] = val
-- 
2.43.0


From 6239f9fcbbab6d4c3ceee9a39eb6b3160ad7fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:12 +0000
Subject: [PATCH 38/40] fix: put coefficients on the bound that rounding leaves
 beside it

---
 src/glum/_solvers.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index 5dbcf85..d042102 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -771,6 +771,26 @@ def identify_active_set(state: IRLSState, data: IRLSData):
     return active_set
 
 
+def _take_step(state: IRLSState, data: IRLSData, step: np.ndarray) -> np.ndarray:
+    """Return the coefficients after a step.
+
+    Coefficients that only rounding keeps beside their bound are put on it, as the
+    gradient of a coefficient at its bound is treated differently.
+    """
+    coef = state.coef + step
+    no_intercept = coef[data.intercept_offset :]
+    eps = np.finfo(coef.dtype).eps
+    for has_bounds, bounds in (
+        (data.has_lower_bounds, data._lower_bounds),
+        (data.has_upper_bounds, data._upper_bounds),
+    ):
+        if has_bounds:
+            rounding = eps * (np.abs(step[data.intercept_offset :]) + np.abs(bounds))
+            at_bound = np.isfinite(bounds) & (np.abs(no_intercept - bounds) <= rounding)
+            no_intercept[at_bound] = bounds[at_bound]
+    return coef
+
+
 @timeit("line_search_runtime")
 def line_search(state: IRLSState, data: IRLSData, d: np.ndarray):
     """
@@ -817,7 +837,7 @@ def line_search(state: IRLSState, data: IRLSData, d: np.ndarray):
     factor = 1.0
     for _k in range(20):
         step = factor * d
-        coef_wd = state.coef + step
+        coef_wd = _take_step(state, data, step)
         eta_wd, mu_wd, obj_val_wd, coef_wd_P2 = _update_predictions(
             state, data, coef_wd, X_dot_d, factor=factor
         )
@@ -863,7 +883,7 @@ def line_search(state: IRLSState, data: IRLSData, d: np.ndarray):
     # of iterations since we aren't calculating eta or mu from scratch but
     # instead adding the delta from the previous iteration. Maybe we should
     # completely recompute eta every N iterations?
-    return state.coef + step, step, eta_wd, mu_wd, obj_val_wd, coef_wd_P2
+    return coef_wd, step, eta_wd, mu_wd, obj_val_wd, coef_wd_P2
 
 
 def _get_obj_and_derivative(
-- 
2.43.0


From c3b7d650a107bc578cbb28d8be24f10daeb5728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:59 +0000
Subject: [PATCH 39/40] fix: compare monotonic IRLS steps under the current
 penalty

---
 src/glum/_solvers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index d042102..9420458 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -1118,6 +1118,11 @@ def _monotonic_irls_solver(
 
             if penalty_changed:
                 state.hessian_initialized = False
+                # The line search compares with the objective of this penalty
+                old_coef_P2 = coef_P2
+                coef_P2 = _make_coef_P2(data.intercept_offset, data.P2, state.coef)
+                state.obj_val += 0.5 * ((coef_P2 - old_coef_P2) @ state.coef)
+                state.score = state.score - (coef_P2 - old_coef_P2)
 
             state.old_active_set = state.active_set
             state.active_set = identify_active_set(state, data)
@@ -1153,6 +1158,9 @@ def _monotonic_irls_solver(
                 violations = A_ineq @ state.coef[idx:] - b_ineq
                 if np.any(violations > 1e-6):
                     state.converged = False
+                # a stronger penalty makes the violations smaller
+                if np.any(violations > 0) and constraint_lam < constraint_lam_max:
+                    state.converged = False
                 # constraints that hold now must not keep the coefficients in place
                 released = penalized & (violations < 0)
                 pull = constraint_lam * (A_ineq[released].T @ violations[released])
-- 
2.43.0


From 0a688b058230afcce3bbc30c8fb3e52ab82c4af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:35 +0000
Subject: [PATCH 40/40] fix: tell the columns with missing categories apart by
 the columns, not by feature names

---
 src/glum/_glm.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 7f6d941..1e5ac2b 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -353,9 +353,15 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 logs_emitted=logs_emitted,
             )
             if cat_missing_method_after_alignment == "convert":
+                # The names of the features need not tell the columns apart.
+                has_missing_category = getattr(self, "has_missing_category_", {})
                 df = add_missing_categories(
                     df=df,
-                    categorical_levels=self.categorical_levels_,
+                    categorical_levels={
+                        col: levels
+                        for col, levels in self.categorical_levels_.items()
+                        if has_missing_category.get(col, True)
+                    },
                     feature_names=self.feature_names_,
                     cat_missing_name=self.cat_missing_name,
                     categorical_format=self.categorical_format,
-- 
2.43.0

