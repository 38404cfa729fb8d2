From 25fc1a7c8a4de13f588a3d9732e78454c079dac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 01/34] fix: keep the y-dependent term of the Tweedie deviance
 for negative responses

---
 src/glum/_functions.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glum/_functions.pyx b/src/glum/_functions.pyx
index deab5ae..4c4c593 100644
--- a/src/glum/_functions.pyx
+++ b/src/glum/_functions.pyx
@@ -385,6 +385,8 @@ def tweedie_deviance(
         if y[i] > 0:
             yo1mp = y[i] / (1 - p)
             D += weights[i] * ((y[i] ** (1 - p)) * yo1mp / (2 - p) - yo1mp * mu1mp)
+        else:  # y can only be negative when p < 0
+            D += -weights[i] * y[i] * mu1mp / (1 - p)
 
     return 2 * D
 
-- 
2.43.0


From 9de7b34500267fec4df87cc32d1ebba7e47f3a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 02/34] fix: raise NotImplementedError for the log-likelihood
 of Tweedie powers below zero

---
 src/glum/_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_distribution.py b/src/glum/_distribution.py
index bb6f8a0..84eaa2e 100644
--- a/src/glum/_distribution.py
+++ b/src/glum/_distribution.py
@@ -747,7 +747,7 @@ class TweedieDistribution(ExponentialDispersionModel):
             return poisson_log_likelihood(y, sample_weight, mu, 1.0)
         elif p == 2:
             return gamma_log_likelihood(y, sample_weight, mu, float(dispersion))
-        elif p < 2:
+        elif 1 < p < 2:
             return tweedie_log_likelihood(
                 y, sample_weight, mu, float(p), float(dispersion)
             )
-- 
2.43.0


From 87aea127bb65d30c28a3af8f2b25fc07409976c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 03/34] fix: accept arbitrary cluster labels in clustered
 covariance matrices

---
 src/glum/_glm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index a7f0fd2..8c1b9e7 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3334,9 +3334,10 @@ def setup_p2(
 
 def _group_sum(groups: np.ndarray, data: tm.MatrixBase):
     """Sum over groups."""
-    ngroups = len(np.unique(groups))
+    unique_groups, group_codes = np.unique(groups, return_inverse=True)
+    ngroups = len(unique_groups)
     out = np.empty((ngroups, data.shape[1]))
-    eye_n = sps.eye(ngroups, format="csc")[:, groups]
+    eye_n = sps.eye(ngroups, format="csc")[:, group_codes]
     for i in range(data.shape[1]):
         out[:, i] = safe_toarray(eye_n @ data.getcol(i).unpack()).ravel()
     return out
-- 
2.43.0


From b5c3b99161a8a431587b5deb03ffb1117082f95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 04/34] fix: test against zero when wald_test gets R without r

---
 src/glum/_glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 8c1b9e7..9fec983 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1214,7 +1214,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         }
 
         if R is not None:
-            return self._wald_test_matrix(R=R, r=np.asarray(r), **kwargs)
+            r = None if r is None else np.asarray(r)
+            return self._wald_test_matrix(R=R, r=r, **kwargs)
         if features is not None:
             return self._wald_test_feature_names(features=features, values=r, **kwargs)
         if terms is not None:
-- 
2.43.0


From e701a73963154d7878e008ac14623753b1b82e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 05/34] fix: resolve an integer formula context in the frame of
 the public method's caller

---
 src/glum/_glm.py    | 30 ++++++++++++++++++++----------
 src/glum/_glm_cv.py |  6 ++++--
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 9fec983..e174dd3 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -876,7 +876,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             alpha_index=alpha_index,
             coef_path=self.coef_path_ if use_path else self.coef_,
             intercept_path=self.intercept_path_ if use_path else self.intercept_,
-            context=context,
+            context=capture_context(context),
         )
 
     def _compute_linear_predictor(
@@ -1622,7 +1622,13 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 return self.covariance_matrix_
 
             if hasattr(self, "y_model_spec_"):
-                y = self.y_model_spec_.get_model_matrix(X).toarray().ravel()
+                y = (
+                    self.y_model_spec_.get_model_matrix(
+                        X, context=capture_context(context)
+                    )
+                    .toarray()
+                    .ravel()
+                )
                 # This has to go first because X is modified in the next line
 
             if nw.dependencies.is_into_dataframe(X):
@@ -1786,7 +1792,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         """
         sample_weight = check_weights(sample_weight, y.shape[0], y.dtype)
 
-        mu = self.predict(X, offset=offset, context=context)
+        mu = self.predict(X, offset=offset, context=capture_context(context))
         y_mean: float = np.average(y, weights=sample_weight)
 
         dev = self.family_instance.deviance(y, mu, sample_weight=sample_weight)
@@ -3029,7 +3035,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             no context is added. Set ``context=0`` to make the calling scope
             available.
         """
-        return self._get_info_criteria("aic", X, y, sample_weight, context=context)
+        return self._get_info_criteria(
+            "aic", X, y, sample_weight, context=capture_context(context)
+        )
 
     def aicc(
         self,
@@ -3068,7 +3076,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             no context is added. Set ``context=0`` to make the calling scope
             available.
         """
-        aicc = self._get_info_criteria("aicc", X, y, sample_weight, context=context)
+        aicc = self._get_info_criteria(
+            "aicc", X, y, sample_weight, context=capture_context(context)
+        )
 
         if not aicc:
             msg = "Model degrees of freedom should be more than training data points."
@@ -3112,7 +3122,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             no context is added. Set ``context=0`` to make the calling scope
             available.
         """
-        return self._get_info_criteria("bic", X, y, sample_weight, context=context)
+        return self._get_info_criteria(
+            "bic", X, y, sample_weight, context=capture_context(context)
+        )
 
     def _get_info_criteria(
         self,
@@ -3120,14 +3132,12 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
         X: ArrayLike,
         y: VectorLike,
         sample_weight: Optional[ArrayLike] = None,
-        context: Optional[Union[int, Mapping[str, Any]]] = None,
+        context: Optional[Mapping[str, Any]] = None,
     ):
         skl.utils.validation.check_is_fitted(self, "coef_")
 
-        context_: Optional[Mapping[str, Any]] = capture_context(context)
-
         if not hasattr(self, "_info_criteria"):
-            self._compute_information_criteria(X, y, sample_weight, context=context_)
+            self._compute_information_criteria(X, y, sample_weight, context=context)
 
         if (
             self.alpha is None or (self.alpha is not None and self.alpha > 0)
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 612ef4f..5e1a212 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -478,7 +478,9 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         alpha_index = self._resolve_alpha_index(alpha_index, alpha)
 
         if alpha_index is None:
-            return super().linear_predictor(X, offset, context=context)
+            return super().linear_predictor(
+                X, offset, context=capture_context(context)
+            )
 
         return self._compute_linear_predictor(
             X,
@@ -486,7 +488,7 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             alpha_index=alpha_index,
             coef_path=self._refit_coef_path,
             intercept_path=self._refit_intercept_path,
-            context=context,
+            context=capture_context(context),
         )
 
     def _validate_hyperparameters(self) -> None:
-- 
2.43.0


From c32d0e56ddbf22603db610b4df4032b5ffcce30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 06/34] fix: give sample weights the floating precision of the
 data

---
 src/glum/_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index a6b2c6d..6f652de 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -190,6 +190,8 @@ def check_weights(
     force_all_finite: bool = True,
 ) -> np.ndarray:
     """Check that sample weights are non-negative and have the right shape."""
+    if not np.issubdtype(dtype, np.floating):
+        dtype = np.float64  # integer data must not truncate the weights
     if sample_weight is None:
         return np.ones(n_samples, dtype=dtype)
     if np.isscalar(sample_weight):
@@ -201,7 +203,7 @@ def check_weights(
         sample_weight,
         accept_sparse=False,
         ensure_2d=False,
-        dtype=[np.float64, np.float32],
+        dtype=dtype,
         **{keyword_finiteness: force_all_finite},
     )
 
-- 
2.43.0


From c26c90993105b52d18e83da07207a2da99a7a8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 07/34] fix: give a scalar offset the precision of the data

---
 src/glum/_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index 6f652de..acbfe27 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -163,7 +163,7 @@ def check_offset(
     if offset is None:
         return None
     if np.isscalar(offset):
-        return np.full(n_rows, offset)
+        return np.full(n_rows, offset, dtype=dtype)
 
     offset = skl.utils.check_array(
         offset,
-- 
2.43.0


From a94842c14a95c8850d089279c43f970dbd8f62b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 08/34] fix: accept a double precision P1 for single precision
 data

---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index e174dd3..10d2741 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3256,7 +3256,7 @@ def setup_p1(
     else:
         P1 = np.atleast_1d(P1)
         try:
-            P1 = P1.astype(dtype, casting="safe", copy=False)  # type: ignore
+            P1 = P1.astype(dtype, casting="same_kind", copy=False)  # type: ignore
         except TypeError as e:
             raise TypeError(
                 "The given P1 cannot be converted to a numeric array; "
-- 
2.43.0


From 44643cf0068c7f53cd961e7707645d6b1125e880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 09/34] fix: give start values the precision of the data and
 copy warm starts

---
 src/glum/_glm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 10d2741..27b54d6 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -256,10 +256,13 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         dtype,
     ) -> np.ndarray:
         if self.warm_start and hasattr(self, "coef_"):
-            coef = self.coef_  # type: ignore
+            # copy: the start values are changed in place below
+            coef = np.array(  # type: ignore
+                self.coef_, dtype=_float_itemsize_to_dtype[X.dtype.itemsize]
+            )
             intercept = self.intercept_  # type: ignore
             if self.fit_intercept:
-                coef = np.concatenate((np.array([intercept]), coef))
+                coef = np.concatenate((np.array([intercept], dtype=coef.dtype), coef))
             if self._center_predictors:
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
 
@@ -284,7 +287,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 dtype=dtype,
                 copy=True,
                 **{keyword_finiteness: True},
-            )
+            ).astype(_float_itemsize_to_dtype[X.dtype.itemsize], copy=False)
 
             if coef.shape != (len(col_means) + self.fit_intercept,):
                 raise ValueError(
-- 
2.43.0


From 11f34cab30c3ab7554d8c8bb3b32b5d8e5a6094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 10/34] fix: weight every column of predictions for several
 alphas

---
 src/glum/_glm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 27b54d6..43a1755 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -994,6 +994,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
 
         sample_weight = check_weights(sample_weight, X.shape[0], X.dtype)
 
+        if mu.ndim == 2:  # one column of predictions per requested alpha
+            sample_weight = sample_weight[:, np.newaxis]
+
         return mu * sample_weight
 
     def coef_table(
-- 
2.43.0


From 596e0e7959e3e21bdc3bda9e6ec384abeb6d96a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 11/34] fix: accept an array of alphas together with
 alpha_search

---
 src/glum/_glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 43a1755..1a6221d 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -397,8 +397,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                         np.all(np.asarray(self.l1_ratio) == 0)
                         or (
                             hasattr(self, "alpha")
-                            and self.alpha == 0
                             and not self.alpha_search
+                            and self.alpha == 0
                         )
                     )
                 ):
@@ -406,7 +406,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 elif np.all(np.asarray(self.l1_ratio) == 0):
                     self._solver = "irls-ls"
                 elif (
-                    hasattr(self, "alpha") and self.alpha == 0 and not self.alpha_search
+                    hasattr(self, "alpha") and not self.alpha_search and self.alpha == 0
                 ):
                     self._solver = "irls-ls"
                 else:
-- 
2.43.0


From 423338b689cc0b5c5ba93d78b55c52415e1c3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 12/34] fix: support cross-validation generators whose number
 of splits depends on the data

---
 src/glum/_glm_cv.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 5e1a212..b4b7af7 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -645,6 +645,7 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             A_ineq, b_ineq = None, None
 
         cv = skl.model_selection.check_cv(self.cv)
+        n_splits = cv.get_n_splits(X, y)
 
         def _fit_path(
             self,
@@ -806,22 +807,22 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
 
         self.intercept_path_ = np.reshape(
             [elmt[0] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0]), -1),
+            (n_splits, len(l1_ratio), len(alphas[0]), -1),
         )
 
         self.coef_path_ = np.reshape(
             [elmt[1] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0]), -1),
+            (n_splits, len(l1_ratio), len(alphas[0]), -1),
         )
 
         self.deviance_path_ = np.reshape(
             [elmt[2] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0])),
+            (n_splits, len(l1_ratio), len(alphas[0])),
         )
 
         self.train_deviance_path_ = np.reshape(
             [elmt[3] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0])),
+            (n_splits, len(l1_ratio), len(alphas[0])),
         )
 
         avg_deviance = self.deviance_path_.mean(axis=0)  # type: ignore
-- 
2.43.0


From 5c47676fc19c2cbfcf4f9f425c3e20f7b7c36b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 13/34] fix: import eigsh from the module that provides it

---
 src/glum/_linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glum/_linalg.py b/src/glum/_linalg.py
index 9ccb4ea..b9712de 100644
--- a/src/glum/_linalg.py
+++ b/src/glum/_linalg.py
@@ -4,6 +4,7 @@ from typing import Optional, Union
 import numpy as np
 import tabmat as tm
 from scipy import linalg, sparse
+from scipy.sparse.linalg import eigsh
 
 from ._utils import safe_toarray
 
@@ -35,7 +36,7 @@ def is_pos_semidef(p: Union[sparse.spmatrix, np.ndarray]) -> Union[bool, np.bool
             n_evals_to_compuate = p.shape[0] // 10 + 1
             sigma = -1000 * epsneg  # start searching near this value
             which = "SA"  # find smallest algebraic eigenvalues first
-            eigenvalues = linalg.eigsh(
+            eigenvalues = eigsh(
                 p,
                 k=n_evals_to_compuate,
                 sigma=sigma,
-- 
2.43.0


From 1e53e9b0da25a063d47da1702d5bf637872dda40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 14/34] fix: accept None for P1 and P2

---
 src/glum/_glm.py   | 2 +-
 src/glum/_utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 1a6221d..bb89237 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1942,7 +1942,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         if self.check_input:
             # check if P1 has only non-negative values, negative values might
             # indicate group lasso in the future.
-            if not isinstance(self.P1, str):  # if self.P1 != 'identity':
+            if self.P1 is not None and not isinstance(self.P1, str):
                 if not np.all(np.asarray(self.P1) >= 0):
                     raise ValueError("P1 must not have negative values.")
 
diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 320cd52..1bc8b51 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -138,7 +138,7 @@ def expand_categorical_penalties(
     columns, we assume that the penalty at the location of categorical columns
     is the same for all levels.
     """
-    if isinstance(penalty, str):
+    if penalty is None or isinstance(penalty, str):
         return penalty
     if not sparse.issparse(penalty):
         penalty = np.asanyarray(penalty)
-- 
2.43.0


From 3a5239e400a6b3225763b28dd51ea1a075ff1be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 15/34] fix: keep the precision of the penalties when alpha is
 a NumPy scalar

---
 src/glum/_glm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index bb89237..f49e08d 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -687,8 +687,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         self.coef_path_ = np.empty((len(alphas), len(coef)), dtype=X.dtype)
 
         for k, alpha in enumerate(alphas):
-            P1 = P1_no_alpha * alpha
-            P2 = P2_no_alpha * alpha
+            # a NumPy scalar would change the precision of the penalties
+            P1 = P1_no_alpha * float(alpha)
+            P2 = P2_no_alpha * float(alpha)
 
             tic = time.perf_counter()
 
@@ -2900,7 +2901,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             if self.alpha is None:
                 _alpha = 0.0
             else:
-                _alpha = self.alpha
+                _alpha = float(self.alpha)
             if _alpha > 0 and self.l1_ratio > 0 and self._solver != "irls-cd":
                 raise ValueError(
                     f"The chosen solver (solver={self._solver}) can't deal "
-- 
2.43.0


From d737c32a4dcac4618be4fc57e4a2b4e5ea8a854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 16/34] fix: forget the formula, categories and information
 criteria of an earlier fit

---
 src/glum/_glm.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index f49e08d..4e3e3c6 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1996,6 +1996,17 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         copy_X = self._should_copy_X()
         drop_first = getattr(self, "drop_first", False)
 
+        # what an earlier fit learned about its data must not outlive it
+        for attr in (
+            "X_model_spec_",
+            "y_model_spec_",
+            "_categorical_levels_",
+            "_feature_dtypes_",
+            "has_missing_category_",
+            "_info_criteria",
+        ):
+            self.__dict__.pop(attr, None)
+
         if nw.dependencies.is_into_dataframe(X):
             if getattr(self, "formula", None) is not None:
                 lhs, rhs = parse_formula(
-- 
2.43.0


From a9ddf4c616a629bfdb2772b77f84f8c4c3d89cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 17/34] fix: drop the regularization path of an earlier fit

---
 src/glum/_glm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 4e3e3c6..e42267b 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2909,6 +2909,10 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
                 self.intercept_ = 0.0
                 self.coef_ = self.coef_path_[-1]
         else:
+            # results of an earlier fit with ``alpha_search=True``
+            for attr in ("_alphas", "coef_path_", "intercept_path_"):
+                self.__dict__.pop(attr, None)
+
             if self.alpha is None:
                 _alpha = 0.0
             else:
-- 
2.43.0


From 0244e81308f30f3bde582740b5254c0e17a402a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 18/34] fix: keep the intermediate results of cross-validation
 folds apart

---
 src/glum/_glm.py    |  6 +++---
 src/glum/_glm_cv.py | 23 +++++++++--------------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index e42267b..242561f 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -684,7 +684,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         A_ineq: Optional[np.ndarray],
         b_ineq: Optional[np.ndarray],
     ) -> np.ndarray:
-        self.coef_path_ = np.empty((len(alphas), len(coef)), dtype=X.dtype)
+        coef_path = np.empty((len(alphas), len(coef)), dtype=X.dtype)
 
         for k, alpha in enumerate(alphas):
             # a NumPy scalar would change the precision of the penalties
@@ -714,9 +714,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                     f"alpha={alpha:.3e}, time={toc - tic:.2f}s, n_iter={self.n_iter_}"
                 )
 
-            self.coef_path_[k, :] = coef
+            coef_path[k, :] = coef
 
-        return self.coef_path_
+        return coef_path
 
     def report_diagnostics(
         self,
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index b4b7af7..ca46a46 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -699,8 +699,8 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
 
             (
                 x_train,
-                self.col_means_,
-                self.col_stds_,
+                col_means,
+                col_stds,
                 lower_bounds,
                 upper_bounds,
                 A_ineq,
@@ -731,8 +731,8 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
                 y_train,
                 w_train,
                 offset_train,
-                self.col_means_,
-                self.col_stds_,
+                col_means,
+                col_stds,
                 dtype=[np.float64, np.float32],
             )
 
@@ -767,7 +767,7 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             # x and coefficient rescaling differs by self.fit_intercept.
             if self.fit_intercept:
                 intercept_path_, coef_path_ = unstandardize(
-                    self.col_means_, self.col_stds_, coef[:, 0], coef[:, 1:]
+                    col_means, col_stds, coef[:, 0], coef[:, 1:]
                 )
                 assert isinstance(intercept_path_, np.ndarray)  # make mypy happy
                 full_coef_path = np.concatenate(
@@ -777,7 +777,7 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             else:
                 # set intercept to zero as the other linear models do
                 intercept_path_, coef_path_ = unstandardize(
-                    self.col_means_, self.col_stds_, np.zeros(coef.shape[0]), coef
+                    col_means, col_stds, np.zeros(coef.shape[0]), coef
                 )
                 deviance_path_ = [_get_deviance(_coef) for _coef in coef_path_]
 
@@ -872,12 +872,9 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         else:
             refit_alphas = self.alphas_
 
-        # _solve_regularization_path overwrites self.coef_path_; save and
-        # restore the per-fold paths so the public attribute is unchanged.
-        # It also overwrites n_iter_, _n_cycles, and diagnostics_, but those
-        # just reflect whichever fold ran last, so we let the refit values stand.
-        _cv_coef_path = self.coef_path_
-
+        # _solve_regularization_path overwrites n_iter_, _n_cycles, and
+        # diagnostics_, but those just reflect whichever fold ran last, so we let
+        # the refit values stand.
         coef = self._solve_regularization_path(
             X=X,
             y=y,
@@ -893,8 +890,6 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             b_ineq=b_ineq,
         )
 
-        self.coef_path_ = _cv_coef_path
-
         if self.fit_intercept:
             self._refit_intercept_path, self._refit_coef_path = unstandardize(
                 self.col_means_, self.col_stds_, coef[:, 0], coef[:, 1:]
-- 
2.43.0


From 75e58dccc0d7b133c9620a2d9f46ff7294839320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 19/34] fix: compare start values with bounds on the same scale

---
 src/glum/_glm.py    | 19 ++++++++++++-------
 src/glum/_glm_cv.py | 12 +++++++++++-
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 242561f..fe5522a 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -254,6 +254,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         col_means: np.ndarray,
         col_stds: Optional[np.ndarray],
         dtype,
+        lower_bounds: Optional[np.ndarray] = None,
+        upper_bounds: Optional[np.ndarray] = None,
     ) -> np.ndarray:
         if self.warm_start and hasattr(self, "coef_"):
             # copy: the start values are changed in place below
@@ -300,22 +302,23 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
 
         # If starting values are outside the specified bounds (if set),
-        # bring the starting value exactly at the bound.
+        # bring the starting value exactly at the bound. Like the coefficients, the
+        # bounds refer to the standardized predictors.
         idx = int(self.fit_intercept)
-        if self.lower_bounds is not None:
-            if np.any(coef[idx:] < self.lower_bounds):
+        if lower_bounds is not None:
+            if np.any(coef[idx:] < lower_bounds):
                 warnings.warn(
                     "lower_bounds above starting value. Setting the starting values "
                     "to max(start_params, lower_bounds)."
                 )
-                coef[idx:] = np.maximum(coef[idx:], self.lower_bounds)
-        if self.upper_bounds is not None:
-            if np.any(coef[idx:] > self.upper_bounds):
+                coef[idx:] = np.maximum(coef[idx:], lower_bounds)
+        if upper_bounds is not None:
+            if np.any(coef[idx:] > upper_bounds):
                 warnings.warn(
                     "upper_bounds below starting value. Setting the starting values "
                     "to min(start_params, upper_bounds)."
                 )
-                coef[idx:] = np.minimum(coef[idx:], self.upper_bounds)
+                coef[idx:] = np.minimum(coef[idx:], upper_bounds)
 
         return coef
 
@@ -2857,6 +2860,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             self.col_means_,
             self.col_stds_,
             dtype=[np.float64, np.float32],
+            lower_bounds=lower_bounds,
+            upper_bounds=upper_bounds,
         )
 
         #######################################################################
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index ca46a46..6262166 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -734,6 +734,8 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
                 col_means,
                 col_stds,
                 dtype=[np.float64, np.float32],
+                lower_bounds=lower_bounds,
+                upper_bounds=upper_bounds,
             )
 
             if self.check_input:
@@ -864,7 +866,15 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         )
 
         coef = self._get_start_coef(
-            X, y, sample_weight, offset, self.col_means_, self.col_stds_, dtype=X.dtype
+            X,
+            y,
+            sample_weight,
+            offset,
+            self.col_means_,
+            self.col_stds_,
+            dtype=X.dtype,
+            lower_bounds=lower_bounds,
+            upper_bounds=upper_bounds,
         )
 
         if len(l1_ratio) > 1:
-- 
2.43.0


From 0b3b0efdee76d380a8aa1a8a411e0088c87ba098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 20/34] fix: compute information criteria for a path with given
 alphas

---
 src/glum/_glm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index fe5522a..970a215 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3166,9 +3166,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
         if not hasattr(self, "_info_criteria"):
             self._compute_information_criteria(X, y, sample_weight, context=context)
 
-        if (
-            self.alpha is None or (self.alpha is not None and self.alpha > 0)
-        ) and self.l1_ratio < 1.0:
+        # ``coef_`` belongs to the last alpha of a path
+        alpha = self._alphas[-1] if self.alpha_search else self.alpha
+        if (alpha is None or alpha > 0) and self.l1_ratio < 1.0:
             warnings.warn(
                 "There is no general definition for the model's degrees of "
                 + f"freedom under L2 (ridge) regularisation. The {crit} "
-- 
2.43.0


From 908667b4dba15242ced3b7ee690272eff1c138e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 21/34] fix: validate bounds and inequality constraints before
 cross-validation

---
 src/glum/_glm_cv.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 6262166..feb7d64 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -1,4 +1,3 @@
-import copy
 from collections.abc import Mapping, Sequence
 from typing import Any, Optional, Union
 
@@ -14,7 +13,7 @@ from ._linalg import _safe_lin_pred, is_pos_semidef
 from ._link import Link, LogLink
 from ._typing import ArrayLike
 from ._utils import standardize, unstandardize
-from ._validation import check_bounds
+from ._validation import check_bounds, check_inequality_constraints
 
 
 class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
@@ -636,14 +635,21 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         lower_bounds = check_bounds(self.lower_bounds, X.shape[1], X.dtype)
         upper_bounds = check_bounds(self.upper_bounds, X.shape[1], X.dtype)
 
+        if (lower_bounds is not None) and (upper_bounds is not None):
+            if np.any(lower_bounds > upper_bounds):
+                raise ValueError("Upper bounds must be higher than lower bounds.")
+
         if self.monotonic_constraints is not None:
             A_ineq, b_ineq = self._resolve_monotonic_constraints()
         elif self.A_ineq is not None and self.b_ineq is not None:
-            A_ineq = copy.copy(self.A_ineq)
-            b_ineq = copy.copy(self.b_ineq)
+            A_ineq, b_ineq = self.A_ineq, self.b_ineq
         else:
             A_ineq, b_ineq = None, None
 
+        A_ineq, b_ineq = check_inequality_constraints(
+            A_ineq, b_ineq, n_features=X.shape[1], dtype=X.dtype
+        )
+
         cv = skl.model_selection.check_cv(self.cv)
         n_splits = cv.get_n_splits(X, y)
 
-- 
2.43.0


From 6fedb8741a970b564b2d8c785de52bbaa8087153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 22/34] fix: refuse L1 penalties that the chosen solver would
 ignore on a path

---
 src/glum/_glm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 970a215..812dbd2 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -573,6 +573,12 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 )
             return coef
 
+        if self._solver != "irls-cd" and np.any(P1 != 0):
+            raise ValueError(
+                f"The chosen solver (solver={self._solver}) can't deal with L1 "
+                "penalties, which are included with a positive alpha and l1_ratio."
+            )
+
         fixed_inner_tol = None
         if (
             isinstance(self._family_instance, NormalDistribution)
-- 
2.43.0


From 7e50842cadcbc96f2f1a3836b88c0d99cbb64bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 23/34] fix: scale start values of models without an intercept
 like the predictors

---
 src/glum/_glm.py   | 16 ++++++++++++----
 src/glum/_utils.py | 11 +++++++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 812dbd2..2cd7789 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -265,8 +265,12 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             intercept = self.intercept_  # type: ignore
             if self.fit_intercept:
                 coef = np.concatenate((np.array([intercept], dtype=coef.dtype), coef))
-            if self._center_predictors:
-                standardize_warm_start(coef, col_means, col_stds)  # type: ignore
+            standardize_warm_start(
+                coef,
+                col_means,
+                col_stds,
+                self._center_predictors,
+            )
 
         elif self.start_params is None:
             if self.fit_intercept:
@@ -298,8 +302,12 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                     f"({len(col_means) + self.fit_intercept},)."
                 )
 
-            if self._center_predictors:
-                standardize_warm_start(coef, col_means, col_stds)  # type: ignore
+            standardize_warm_start(
+                coef,
+                col_means,
+                col_stds,
+                self._center_predictors,
+            )
 
         # If starting values are outside the specified bounds (if set),
         # bring the starting value exactly at the bound. Like the coefficients, the
diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 1bc8b51..b5f8e9b 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -272,9 +272,16 @@ def standardize(
 
 
 def standardize_warm_start(  # noda D
-    coef: np.ndarray, col_means: np.ndarray, col_stds: Optional[np.ndarray]
+    coef: np.ndarray,
+    col_means: np.ndarray,
+    col_stds: Optional[np.ndarray],
+    fit_intercept: bool = True,
 ) -> None:
-    if col_stds is None:
+    if not fit_intercept:
+        # predictors are scaled, but not centered
+        if col_stds is not None:
+            coef /= _one_over_var_inf_to_val(col_stds, 1.0)
+    elif col_stds is None:
         coef[0] += np.squeeze(col_means).dot(coef[1:])
     else:
         coef[1:] *= col_stds
-- 
2.43.0


From 1e5f650cb6953cd3465f9a18b6cdab7c90c774eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 24/34] fix: let Gaussian identity models iterate until they
 have converged

---
 src/glum/_glm.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 2cd7789..efd5e04 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -595,11 +595,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             and self._solver != "irls-ls-monotonic"
         ):
             # IRLS-CD and IRLS-LS should converge in one iteration for any
-            # normal distribution problem with identity link.
+            # normal distribution problem with identity link, as long as the
+            # active set contains all the coefficients that are not zero.
             fixed_inner_tol = (self._gradient_tol, self.step_size_tol)
-            max_iter = 1
-        else:
-            max_iter = self.max_iter
 
         # 4.1 IRLS #############################################################
         if "irls" in self._solver:
@@ -615,7 +613,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 fit_intercept=self.fit_intercept,
                 family=self._family_instance,
                 link=self._link_instance,
-                max_iter=max_iter,
+                max_iter=self.max_iter,
                 max_inner_iter=getattr(self, "max_inner_iter", 100_000),
                 gradient_tol=self._gradient_tol,
                 step_size_tol=self.step_size_tol,
@@ -656,7 +654,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 verbose=self.verbose,
                 family=self._family_instance,
                 link=self._link_instance,
-                max_iter=max_iter,
+                max_iter=self.max_iter,
                 # TODO: support step_size_tol?
                 tol=self._gradient_tol,  # type: ignore
                 offset=offset,
@@ -678,7 +676,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 verbose=self.verbose > 0,
                 family=self._family_instance,
                 link=self._link_instance,
-                max_iter=max_iter,
+                max_iter=self.max_iter,
                 gtol=self._gradient_tol,
                 offset=offset,
                 A_ineq=A_ineq,
-- 
2.43.0


From 9e61a605a2e1ad7849c5072da21490ae11e6c2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:25 +0000
Subject: [PATCH 25/34] fix: start the automatic alpha path at the null model
 when there is an offset

---
 src/glum/_glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index efd5e04..ffffb59 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -500,6 +500,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 sample_weight=w,
                 link=self._link_instance,
                 distribution=self._family_instance,
+                eta=offset,
             )
         else:
             intercept_offset = 0
-- 
2.43.0


From 7d51e3dae021d5381b675e97ae42155215cc57b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:40 +0000
Subject: [PATCH 26/34] fix: refuse scalar offsets and sample weights that are
 not finite

---
 src/glum/_validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index acbfe27..c735a9a 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -163,6 +163,8 @@ def check_offset(
     if offset is None:
         return None
     if np.isscalar(offset):
+        if not np.isfinite(offset):  # type: ignore
+            raise ValueError("Offsets must be finite.")
         return np.full(n_rows, offset, dtype=dtype)
 
     offset = skl.utils.check_array(
@@ -197,6 +199,8 @@ def check_weights(
     if np.isscalar(sample_weight):
         if sample_weight <= 0:  # type: ignore
             raise ValueError("Sample weights must be non-negative.")
+        if force_all_finite and not np.isfinite(sample_weight):  # type: ignore
+            raise ValueError("Sample weights must be finite.")
         return np.full(n_samples, sample_weight, dtype=dtype)
 
     sample_weight = skl.utils.check_array(
-- 
2.43.0


From 21bc6a6231a957debb84297923f73e36684349a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:40 +0000
Subject: [PATCH 27/34] fix: refuse nan as a penalty strength, mixing parameter
 or tolerance

---
 src/glum/_glm.py    | 14 +++++++-------
 src/glum/_glm_cv.py |  5 ++---
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index ffffb59..ac78a90 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1860,14 +1860,15 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         if self.gradient_tol is not None:
             if (
                 not isinstance(self.gradient_tol, (float, int))
-                or self.gradient_tol <= 0
+                or not self.gradient_tol > 0
             ):
                 raise ValueError(
                     "Tolerance for the gradient stopping criteria must be positive; "
                     f"got (gradient_tol={self.gradient_tol})."
                 )
         if self.step_size_tol is not None and (
-            not isinstance(self.step_size_tol, (float, int)) or self.step_size_tol <= 0
+            not isinstance(self.step_size_tol, (float, int))
+            or not self.step_size_tol > 0
         ):
             raise ValueError(
                 "Tolerance for the step-size stopping criteria must be positive; "
@@ -2671,8 +2672,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
                     "`alpha` should be an Iterable or None when `alpha_search` is True"
                 )
             if self.alpha is not None and (
-                (np.asarray(self.alpha) < 0).any()
-                or not np.issubdtype(np.asarray(self.alpha).dtype, np.number)
+                not np.issubdtype(np.asarray(self.alpha).dtype, np.number)
+                or not (np.asarray(self.alpha) >= 0).all()
             ):
                 raise ValueError("`alpha` must contain only non-negative numbers")
         if not self.alpha_search:
@@ -2681,7 +2682,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
                     "`alpha` should be a scalar or None when `alpha_search` is False"
                 )
             if self.alpha is not None and (
-                not isinstance(self.alpha, (int, float)) or self.alpha < 0
+                not isinstance(self.alpha, (int, float)) or not self.alpha >= 0
             ):
                 raise ValueError(
                     "Penalty term must be a non-negative number;"
@@ -2692,8 +2693,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             not np.isscalar(self.l1_ratio)
             # check for numeric, i.e. not a string
             or not np.issubdtype(np.asarray(self.l1_ratio).dtype, np.number)
-            or self.l1_ratio < 0  # type: ignore
-            or self.l1_ratio > 1  # type: ignore
+            or not 0 <= self.l1_ratio <= 1  # type: ignore
         ):
             raise ValueError(
                 "l1_ratio must be a number in interval [0, 1];"
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index feb7d64..60dc8d0 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -491,13 +491,12 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         )
 
     def _validate_hyperparameters(self) -> None:
-        if self.alphas is not None and np.any(np.asarray(self.alphas) < 0):
+        if self.alphas is not None and not np.all(np.asarray(self.alphas) >= 0):
             raise ValueError
         l1_ratio = np.asarray(self.l1_ratio)
         if (
             not np.issubdtype(l1_ratio.dtype, np.number)
-            or np.any(l1_ratio < 0)
-            or np.any(l1_ratio > 1)
+            or not np.all((l1_ratio >= 0) & (l1_ratio <= 1))
         ):
             raise ValueError(
                 "l1_ratio must be a number in interval [0, 1]; got "
-- 
2.43.0


From dbff0c078b90674e687764ea112fce8acd81292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:40 +0000
Subject: [PATCH 28/34] fix: refuse negative values in the deprecated alphas as
 in alpha

---
 src/glum/_glm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index ac78a90..0a5ea53 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2676,6 +2676,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
                 or not (np.asarray(self.alpha) >= 0).all()
             ):
                 raise ValueError("`alpha` must contain only non-negative numbers")
+            if self.alphas is not None and not (np.asarray(self.alphas) >= 0).all():
+                raise ValueError("`alphas` must contain only non-negative numbers")
         if not self.alpha_search:
             if not np.isscalar(self.alpha) and self.alpha is not None:
                 raise ValueError(
-- 
2.43.0


From f2b5c173c59e93ffd119ec2823ea5ad7bcaeb29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:15 +0000
Subject: [PATCH 29/34] fix: constrain ordered categoricals in the order of
 their categories, not of their names

---
 src/glum/_formula.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/glum/_formula.py b/src/glum/_formula.py
index 40c381c..8efcb52 100644
--- a/src/glum/_formula.py
+++ b/src/glum/_formula.py
@@ -111,15 +111,13 @@ def _group_columns_by_factor(
     return dict(groups)
 
 
-def _sort_key(member: tuple[int, str | None]) -> tuple[float, str]:
-    """Sort key for (col_idx, factor_idx): numeric first, then lexicographic."""
-    _, idx = member
-    if idx is None:
-        return (0.0, "")
+def _sort_members(members: list[tuple[int, Any]]) -> list[tuple[int, Any]]:
+    """Sort (col_idx, factor_idx) by numeric index; else keep the column order."""
     try:
-        return (float(idx), "")
-    except ValueError:
-        return (float("inf"), idx)
+        return sorted(members, key=lambda member: float(member[1]))
+    except (TypeError, ValueError):
+        # Levels of a categorical: their columns follow the order of the categories.
+        return members
 
 
 def _build_monotonic_constraints(
@@ -159,8 +157,7 @@ def _build_monotonic_constraints(
         sign = 1.0 if direction == "increasing" else -1.0
 
         for group_key, members in groups.items():
-            if len(members) > 1:
-                members.sort(key=_sort_key)
+            members = _sort_members(members)
             if len(members) == 1:
                 row = np.zeros(n_features)
                 row[members[0][0]] = -sign
-- 
2.43.0


From 3b2ce3115e8ceac82a6d46400a700a30599a2227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:30 +0000
Subject: [PATCH 30/34] fix: release constraints that become slack in
 irls-ls-monotonic and keep its objective current

---
 src/glum/_solvers.py | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index d7e6d0c..02ae4b4 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -986,17 +986,14 @@ def _trust_constr_solver(
 
 
 def _build_monotonic_penalty(
-    coef_no_intercept: np.ndarray,
     A_ineq: np.ndarray,
-    b_ineq: np.ndarray,
+    penalized: np.ndarray,
     constraint_lam: float = 1e9,
 ) -> Optional[sparse.csc_matrix]:
-    """Return ``lam * A_v.T @ A_v`` as sparse, or None if no violations."""
-    violations = A_ineq @ coef_no_intercept - b_ineq
-    violated = violations > 0
-    if not np.any(violated):
+    """Return ``lam * A_v.T @ A_v`` as sparse, or None if no row is penalized."""
+    if not np.any(penalized):
         return None
-    A_v = sparse.csc_matrix(A_ineq[violated])
+    A_v = sparse.csc_matrix(A_ineq[penalized])
     return constraint_lam * (A_v.T @ A_v)
 
 
@@ -1020,10 +1017,13 @@ def _monotonic_irls_solver(
     constraint_lam = constraint_lam_start
 
     P2_base = data.P2.copy()
+    # Rows that have been violated stay penalized until the solver has converged.
+    penalized = np.zeros(A_ineq.shape[0], dtype=bool)
 
     def _update_constraint_penalty(coef, lam) -> bool:
         """Update data.P2 with penalty; return True if P2 changed."""
-        C = _build_monotonic_penalty(coef[idx:], A_ineq, b_ineq, lam)
+        penalized[A_ineq @ coef[idx:] - b_ineq > 0] = True
+        C = _build_monotonic_penalty(A_ineq, penalized, lam)
         if C is None:
             changed = data.P2 is not P2_base
             data.P2 = P2_base
@@ -1037,6 +1037,15 @@ def _monotonic_irls_solver(
             changed = True
         return changed
 
+    def _update_penalized_state() -> None:
+        """Bring objective value and score in line with a changed data.P2."""
+        state.eta, state.mu, state.obj_val, coef_P2 = _update_predictions(
+            state, data, state.coef, state.eta, factor=0.0
+        )
+        state.gradient_rows, state.score, state.hessian_rows = update_quadratic(
+            state, data, coef_P2
+        )
+
     _update_constraint_penalty(coef, constraint_lam)
 
     state = IRLSState(coef, data)
@@ -1069,6 +1078,7 @@ def _monotonic_irls_solver(
 
             if penalty_changed:
                 state.hessian_initialized = False
+                _update_penalized_state()
 
             state.old_active_set = state.active_set
             state.active_set = identify_active_set(state, data)
@@ -1102,8 +1112,22 @@ def _monotonic_irls_solver(
 
             if state.converged:
                 violations = A_ineq @ state.coef[idx:] - b_ineq
-                if np.any(violations > 1e-6):
+                if np.any(violations > 1e-6) or (
+                    np.any(violations > 0) and constraint_lam < constraint_lam_max
+                ):
                     state.converged = False
+                elif np.any(penalized & (violations <= 0)):
+                    # Rows that have become slack must not hold back the solution.
+                    penalized[:] = violations > 0
+                    state.hessian_initialized = False
+                    _update_constraint_penalty(state.coef, constraint_lam)
+                    _update_penalized_state()
+                    (
+                        state.converged,
+                        state.norm_min_subgrad,
+                        state.max_min_subgrad,
+                        state.inner_tol,
+                    ) = check_convergence(state, data)
 
             state._record_iteration()
 
-- 
2.43.0


From 8f4e4485982b541ede120b7418f6733af7ac39e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:06 +0000
Subject: [PATCH 31/34] fix: do not take the step before releasing constraints
 for convergence in irls-ls-monotonic

---
 src/glum/_solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index 02ae4b4..309273f 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -1123,11 +1123,13 @@ def _monotonic_irls_solver(
                     _update_constraint_penalty(state.coef, constraint_lam)
                     _update_penalized_state()
                     (
-                        state.converged,
+                        _,
                         state.norm_min_subgrad,
                         state.max_min_subgrad,
                         state.inner_tol,
                     ) = check_convergence(state, data)
+                    # The last step belongs to the problem before the release.
+                    state.converged = state.norm_min_subgrad < data.gradient_tol
 
             state._record_iteration()
 
-- 
2.43.0


From e740637814a9cd6e6a30b5e06d2ccbe18be789e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:37 +0000
Subject: [PATCH 32/34] fix: pass cat_missing_name to the model matrix when
 fitting with a formula

---
 src/glum/_glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 0a5ea53..d2240d4 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2054,6 +2054,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                     ensure_full_rank=self.drop_first,
                     categorical_format=self.categorical_format,
                     cat_missing_method=self.cat_missing_method,
+                    cat_missing_name=self.cat_missing_name,
                     interaction_separator=self.interaction_separator,
                     add_column_for_intercept=False,
                     context=context,
-- 
2.43.0


From 55d75d11d3893123a441e34a9d1e74425ea69571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:37 +0000
Subject: [PATCH 33/34] fix: only add the missing category to columns that had
 one when fitting

---
 src/glum/_glm.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index d2240d4..2b0fc1b 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -353,9 +353,15 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 logs_emitted=logs_emitted,
             )
             if cat_missing_method_after_alignment == "convert":
+                has_missing_category = getattr(self, "has_missing_category_", {})
                 df = add_missing_categories(
                     df=df,
-                    categorical_levels=self.categorical_levels_,
+                    # names of other columns may coincide (e.g. "{category}")
+                    categorical_levels={
+                        column: levels
+                        for column, levels in self.categorical_levels_.items()
+                        if has_missing_category.get(column, True)
+                    },
                     feature_names=self.feature_names_,
                     cat_missing_name=self.cat_missing_name,
                     categorical_format=self.categorical_format,
-- 
2.43.0


From e0241d7ab95a9bea8003eab4c73ad7974580dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:37 +0000
Subject: [PATCH 34/34] fix: accept a two-dimensional penalty whose size equals
 the number of data frame columns

---
 src/glum/_utils.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index b5f8e9b..63e5933 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -144,13 +144,6 @@ def expand_categorical_penalties(
         penalty = np.asanyarray(penalty)
 
     if penalty.shape[0] == X.shape[1]:
-        if penalty.ndim == 2:
-            raise ValueError(
-                "When the penalty is two-dimensional, it must have the "
-                "same length as the number of columns in the design "
-                "matrix `X` after expanding categorical columns."
-            )
-
         expanded_penalty = []  # type: ignore
         backend = nw.get_native_namespace(X).__name__
 
@@ -168,6 +161,15 @@ def expand_categorical_penalties(
             else:
                 expanded_penalty.append(element)
 
+        if penalty.ndim == 2:
+            if penalty.shape[0] == len(expanded_penalty):
+                return penalty
+            raise ValueError(
+                "When the penalty is two-dimensional, it must have the "
+                "same length as the number of columns in the design "
+                "matrix `X` after expanding categorical columns."
+            )
+
         return np.array(expanded_penalty)
 
     else:
-- 
2.43.0

