From 69cfceac162efdd09f100421a7ff80ec2cf0c4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 01/32] fix: accept 'univariate_variable' as transform_type

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index fdeac01..0775712 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -485,7 +485,7 @@ class R_DST(BaseEstimator, TransformerMixin):
     
     def _validate_transform_type(self, transform_type):
         transform_type = transform_type.lower()
-        valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE,STR_MULTIVARIATE_VARIABLE]
+        valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE_VARIABLE,STR_MULTIVARIATE_VARIABLE]
         if transform_type not in valid:
             raise ValueError('Wrong transform_type parameter value, got {}, valid ones are {}'.format(transform_type, valid))
         return transform_type
-- 
2.43.0


From 4dc8b883bac230eb1a1c530e1ebeaa92a02e51ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 02/32] fix: n_samples subsampling keeps series lengths aligned
 and follows random_state

---
 convst/transformers/rdst.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 0775712..cbce63f 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -211,14 +211,16 @@ class R_DST(BaseEstimator, TransformerMixin):
         
         if self.n_samples is None:
             pass
-        elif self.n_samples < 1.0:
-            id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
-            X = X[id_X]
-            y = y[id_X]
-        elif self.n_samples > 1.0:
-            id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
+        elif self.n_samples != 1.0:
+            id_X = resample(
+                np.arange(X.shape[0]), replace=self.n_samples > 1.0,
+                n_samples=int(X.shape[0]*self.n_samples), stratify=y,
+                random_state=self.random_state
+            )
             X = X[id_X]
             y = y[id_X]
+            if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
+                X_len = X_len[id_X]
         
         n_samples, n_features, _ = X.shape
         
-- 
2.43.0


From fe00456517e308d762f6eb37f6f1e3ef46396b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 03/32] fix: R_DST.fit no longer overwrites the parameters it
 was given

---
 convst/transformers/rdst.py | 42 ++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index cbce63f..bf0716b 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -159,21 +159,22 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.max_channels=max_channels
         self.min_len=min_len
     
-    def _set_lengths(self):
+    def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
-            if self.shapelet_lengths.dtype == float:
-                return np.floor(self.min_len*self.shapelet_lengths)
+            shapelet_lengths = check_array_1D(self.shapelet_lengths)
+            if shapelet_lengths.dtype == float:
+                return np.floor(min_len*shapelet_lengths)
             else:
-                return self.shapelet_lengths
+                return shapelet_lengths
         else:
             b0 = self.shapelet_lengths_bounds[0]
             b1 = self.shapelet_lengths_bounds[1]
             
             if isinstance(b0, float):
-                b0 = int(b0*self.min_len)
+                b0 = int(b0*min_len)
             min_l = max(3,b0)
             if isinstance(b1, float):
-                b1 = int(b1*self.min_len)
+                b1 = int(b1*min_len)
             max_l = max(4,max(b0+1,b1+1))
             #4 to ensure range 3,4 -> 3
             lengths = np.asarray(list(range(min_l, max_l)))
@@ -203,11 +204,10 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            if self.min_len is None:
-                self.min_len = X_len.min()
+            min_len = X_len.min() if self.min_len is None else self.min_len
         else:
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            self.min_len = X.shape[2]
+            min_len = X.shape[2]
         
         if self.n_samples is None:
             pass
@@ -224,32 +224,28 @@ class R_DST(BaseEstimator, TransformerMixin):
         
         n_samples, n_features, _ = X.shape
         
-        if self.max_channels is None:
-            self.max_channels = n_features
+        max_channels = n_features if self.max_channels is None else self.max_channels
         
-
-        self.shapelet_lengths = self._set_lengths()
-        
-        shapelet_lengths, seed = self._check_params(self.min_len)
+        shapelet_lengths, seed = self._check_params(min_len, self._set_lengths(min_len))
         # Generate the shapelets
         if self.transform_type == STR_UNIVARIATE_VARIABLE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha,
-                self.phase_invariance, self.min_len, X_len, self.prime_dilations
+                self.phase_invariance, min_len, X_len, self.prime_dilations
             )
         elif self.transform_type == STR_MULTIVARIATE_VARIABLE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha,
-                self.phase_invariance, self.max_channels, self.min_len, X_len,
+                self.phase_invariance, max_channels, min_len, X_len,
                 self.prime_dilations
             )
         elif self.transform_type == STR_MUTLIVARIATE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha, 
-                self.phase_invariance, self.max_channels, self.prime_dilations
+                self.phase_invariance, max_channels, self.prime_dilations
             )
         elif self.transform_type == STR_UNIVARIATE:
             self.shapelets_ = self.fitter(
@@ -429,7 +425,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise ValueError("Samples got different number of features")
     
 
-    def _check_params(self, n_timestamps):
+    def _check_params(self, n_timestamps, shapelet_lengths):
         """
         Check the validity of the input parameters, notably that shapelet 
         length do not exceed time series lengths, and that we have at least 3
@@ -440,6 +436,8 @@ class R_DST(BaseEstimator, TransformerMixin):
         n_timestamps : int
             Number of timestamps of input time series, if the input is of 
             variable length, it must be the minimum number of timestamps.
+        shapelet_lengths : array
+            The possible size of the shapelets, before clipping.
 
         Raises
         ------
@@ -462,11 +460,11 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise TypeError("'n_shapelets' must be an integer (got {})."
                             .format(self.n_shapelets))
 
-        if not isinstance(self.shapelet_lengths, (list, tuple, np.ndarray)):
+        if not isinstance(shapelet_lengths, (list, tuple, np.ndarray)):
             raise TypeError("'shapelet_lengths' must be a list, a tuple or "
-                            "an array (got {}).".format(self.shapelet_lengths))
+                            "an array (got {}).".format(shapelet_lengths))
         
-        shapelet_lengths = check_array_1D(self.shapelet_lengths).astype(np.int64)
+        shapelet_lengths = check_array_1D(shapelet_lengths).astype(np.int64)
         if not np.all(1 < shapelet_lengths):
             raise ValueError("All the values in 'shapelet_lengths' must be "
                              "greater than 1, but got {} ({} < 1)."
-- 
2.43.0


From 966257be4d141b8cf2da47f97c3b3fb305d2cc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 04/32] fix: transform_type='auto' recognises every numeric
 dtype

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index bf0716b..e0343a6 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -317,7 +317,7 @@ class R_DST(BaseEstimator, TransformerMixin):
                 return STR_MULTIVARIATE_VARIABLE
             else:
                 return STR_UNIVARIATE_VARIABLE
-        elif X.dtype == np.int_ or X.dtype == np.float_:
+        else:
             #Even length
             X = check_array_3D(X)
             if X.shape[1] > 1:
-- 
2.43.0


From 397af8a3e32e84808bfd7daa350bebfb8b8af6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 05/32] fix: shapelet lengths clipped to the series never go
 below 2

---
 convst/transformers/rdst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index e0343a6..2ec7120 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -474,8 +474,8 @@ class R_DST(BaseEstimator, TransformerMixin):
             if n_timestamps < 3:
                 raise ValueError('Input data goint {} timestamps, at least 4 are requiered. Input format should be (n_samples, n_features, n_timestamps)'.format(n_timestamps))
             else:
-                warnings.warn("All the values in 'shapelet_lengths' must be lower than or equal to 'n_timestamps' (got {} > {}). Changed shapelet size to {}".format(shapelet_lengths.max(), n_timestamps, n_timestamps//2))
-                shapelet_lengths[shapelet_lengths > n_timestamps] = n_timestamps//2
+                warnings.warn("All the values in 'shapelet_lengths' must be lower than or equal to 'n_timestamps' (got {} > {}). Changed shapelet size to {}".format(shapelet_lengths.max(), n_timestamps, max(2, n_timestamps//2)))
+                shapelet_lengths[shapelet_lengths > n_timestamps] = max(2, n_timestamps//2)
 
 
         rng = check_random_state(self.random_state)
-- 
2.43.0


From 05e59e3cfb6be098d13859c48e79d946d985b917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 06/32] fix: R_DST keeps the random_state it was given

---
 convst/transformers/rdst.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 2ec7120..fd4d282 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -150,7 +150,8 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.prime_dilations = check_is_boolean(prime_dilations)
         self.proba_norm = check_is_numeric(proba_norm)
         self.percentiles = self._validate_percentiles(percentiles)
-        self.random_state = check_random_state(random_state)
+        check_random_state(random_state)
+        self.random_state = random_state
         if isinstance(n_jobs, bool):
             self.n_jobs=n_jobs
         else:
-- 
2.43.0


From 5c74004f20edc144f9e0e178123ad7d3c4616431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 07/32] fix: R_DST.transform refuses data that does not fit the
 fitted shapelets

---
 convst/transformers/rdst.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index fd4d282..019bc47 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -224,6 +224,7 @@ class R_DST(BaseEstimator, TransformerMixin):
                 X_len = X_len[id_X]
         
         n_samples, n_features, _ = X.shape
+        self.n_features_ = n_features
         
         max_channels = n_features if self.max_channels is None else self.max_channels
         
@@ -283,16 +284,47 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X).astype(np.float64)
+            self._check_transform_input(X.shape[1], X_len.min())
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance, X_len
             )
         else:
             X = check_array_3D(X).astype(np.float64)
+            self._check_transform_input(X.shape[1], X.shape[2])
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance
             )
         return X_new
     
+    def _check_transform_input(self, n_features, n_timestamps):
+        """
+        Check that the data to transform has the number of features seen during
+        fit, and is long enough for all the fitted shapelets.
+
+        Parameters
+        ----------
+        n_features : int
+            Number of features of the input time series.
+        n_timestamps : int
+            Minimum number of timestamps of the input time series.
+
+        Raises
+        ------
+        ValueError
+            If the input time series cannot be transformed.
+
+        """
+        if n_features != self.n_features_:
+            raise ValueError("Input has {} features, but {} were seen during fit".format(
+                n_features, self.n_features_
+            ))
+        if not self.phase_invariance:
+            spans = (self.shapelets_[1] - 1) * self.shapelets_[2]
+            if np.any(spans >= n_timestamps):
+                raise ValueError("Input has series of {} timestamps, the fitted shapelets need at least {}".format(
+                    n_timestamps, spans.max() + 1
+                ))
+    
     def _auto_class(self, X):
         """
         Using the input time series data, find the type of transformation to 
-- 
2.43.0


From 933fc0d667b626a3b77d0ac4c111e8dcecf8ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 08/32] fix: percentiles must hold exactly two values

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 019bc47..46f0b45 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -525,7 +525,7 @@ class R_DST(BaseEstimator, TransformerMixin):
     
     def _validate_percentiles(self, percentiles):
         percentiles = check_array_1D(percentiles)
-        if percentiles.dtype == int or percentiles.dtype == float :
+        if percentiles.shape[0] == 2 and (percentiles.dtype == int or percentiles.dtype == float):
             if percentiles[0] <= percentiles[1]:
                 return percentiles
         raise ValueError('Wrong percetniles parameter value, got {}, expected a numerical array of size 2'.format(percentiles))
-- 
2.43.0


From 0c40c728556f9653f3251a52fd0b428030621f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 09/32] fix: normalize_output scales argmin and occurrence by
 the series length

---
 convst/classifiers/rdst_ensemble.py | 1 +
 convst/transformers/rdst.py         | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index eac8523..1cf3522 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -239,6 +239,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                         n_jobs=False,
                         shapelet_lengths=self.shapelet_lengths,
                         phase_invariance=self.phase_invariance,
+                        normalize_output=self.normalize_output,
                         prime_dilations=self.prime_dilations,
                         shapelet_lengths_bounds=self.shapelet_lengths_bounds,
                         lengths_bounds_reduction=self.lengths_bounds_reduction,
diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 46f0b45..4723462 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -294,6 +294,10 @@ class R_DST(BaseEstimator, TransformerMixin):
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance
             )
+            X_len = np.full(X.shape[0], X.shape[2])
+        if self.normalize_output:
+            X_new[:, 1::3] /= X_len[:, np.newaxis]
+            X_new[:, 2::3] /= X_len[:, np.newaxis]
         return X_new
     
     def _check_transform_input(self, n_features, n_timestamps):
-- 
2.43.0


From dd2126f4c81eb1acd65d044b75a473c2c7a7a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 10/32] fix: R_DST_Ensemble predicts and weighs with class
 labels, not class indexes

---
 convst/classifiers/rdst_ensemble.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index 1cf3522..13f00fe 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -49,9 +49,10 @@ class _internalRidgeCV(RidgeClassifierCV):
             alpha_idx = np.where(self.alphas == self.alpha_)[0]
             cv_vals = self.cv_values_[:, :, alpha_idx]
             if cv_vals.shape[1] == 1:
-                return accuracy_score((cv_vals[:, 0] > 0).astype(int), y_train)
+                preds = (cv_vals[:, 0, 0] > 0).astype(int)
             else:
-                return accuracy_score(cv_vals.argmax(axis=1), y_train)
+                preds = cv_vals[:, :, 0].argmax(axis=1)
+            return accuracy_score(y_train, self.classes_[preds])
         else:
             raise ValueError(
                 "LOOCV training accuracy is only available with store_cv_values to True"
@@ -276,4 +277,4 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         )
         # n_samples, n_models
         preds_proba = np.asarray(preds_proba).sum(axis=0)
-        return preds_proba.argmax(axis=1)
+        return self.models[0]["_internalridgecv"].classes_[preds_proba.argmax(axis=1)]
-- 
2.43.0


From 55e4936e2c39724e6e235378b531e08b56491785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 11/32] fix: R_DST_Ensemble.fit no longer overwrites n_jobs

---
 convst/classifiers/rdst_ensemble.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index 13f00fe..0851103 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -220,13 +220,13 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
 
     def _manage_n_jobs(self):
         total_jobs = check_n_jobs(self.n_jobs)
-        self.n_jobs = min(len(self.input_transformers), total_jobs)
-        self.n_jobs_rdst = max(1, total_jobs // self.n_jobs)
+        self.n_jobs_ensemble = min(len(self.input_transformers), total_jobs)
+        self.n_jobs_rdst = max(1, total_jobs // self.n_jobs_ensemble)
 
     def fit(self, X, y):
         self._manage_n_jobs()
         set_num_threads(self.n_jobs_rdst)
-        models = Parallel(n_jobs=self.n_jobs, prefer=self.prefer, require=self.require)(
+        models = Parallel(n_jobs=self.n_jobs_ensemble, prefer=self.prefer, require=self.require)(
             delayed(_parallel_fit)(
                 X,
                 y,
@@ -270,7 +270,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
     def predict(self, X):
         check_is_fitted(self, ["model_weights"])
         preds_proba = Parallel(
-            n_jobs=self.n_jobs, prefer=self.prefer, require=self.require
+            n_jobs=self.n_jobs_ensemble, prefer=self.prefer, require=self.require
         )(
             delayed(_parallel_predict)(X, self.models[i], self.model_weights[i])
             for i in range(len(self.model_weights))
-- 
2.43.0


From dddae19438743f3242ab45aa52561e3c132239d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 12/32] fix: R_DST_Ensemble keeps its random_state and seeds
 each member up front

---
 convst/classifiers/rdst_ensemble.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index 0851103..c43797e 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -179,7 +179,8 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         self.shapelet_lengths_bounds = shapelet_lengths_bounds
         self.prime_dilations = check_is_boolean(prime_dilations)
         self.percentiles = percentiles
-        self.random_state = check_random_state(random_state)
+        check_random_state(random_state)
+        self.random_state = random_state
         self.max_channels = max_channels
         self.min_len = min_len
         self.lengths_bounds_reduction = lengths_bounds_reduction
@@ -226,6 +227,9 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
     def fit(self, X, y):
         self._manage_n_jobs()
         set_num_threads(self.n_jobs_rdst)
+        seeds = check_random_state(self.random_state).randint(
+            np.iinfo(np.int32).max, size=len(self.input_transformers)
+        )
         models = Parallel(n_jobs=self.n_jobs_ensemble, prefer=self.prefer, require=self.require)(
             delayed(_parallel_fit)(
                 X,
@@ -248,7 +252,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                         percentiles=self.percentiles,
                         min_len=self.min_len,
                         max_channels=self.max_channels,
-                        random_state=self.random_state,
+                        random_state=seeds[i],
                     ),
                     _internalRidgeCV(
                         alphas=self.alphas_ridge,
-- 
2.43.0


From 169e26fb6bc7fe49aafca89ace66045530b7787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 13/32] fix: check_n_jobs never resolves to less than one job

---
 convst/utils/checks_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/utils/checks_utils.py b/convst/utils/checks_utils.py
index 1777bab..0378f0d 100644
--- a/convst/utils/checks_utils.py
+++ b/convst/utils/checks_utils.py
@@ -43,7 +43,7 @@ def check_n_jobs(n_jobs):
     elif not is_int(n_jobs):
         raise ValueError(f"`n_jobs` must be None or an integer, but found: {n_jobs}")
     elif n_jobs < 0:
-        return cpu_count() + n_jobs + 1
+        return max(1, cpu_count() + n_jobs + 1)
     else:
         return min(n_jobs,cpu_count())
 
-- 
2.43.0


From 827222e27f3f07766623fc89e4e567d8d315cd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 14/32] fix: FastHankelTransform asks for the optimal offset of
 its own order and bias

---
 convst/transformers/_input_transformers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index d2ef4b4..536ffb8 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -165,7 +165,7 @@ class FastHankelTransform(BaseEstimator, TransformerMixin):
                     X[i],
                     self.dln,
                     self.mu,
-                    offset=fhtoffset(self.dln, self.dln, self.bias),
+                    offset=fhtoffset(self.dln, self.mu, bias=self.bias),
                     bias=self.bias,
                 )
             else:
-- 
2.43.0


From fa19e768f1513be651e5e031e72f850efb5ec2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 15/32] fix: scalers drop every constant column, whatever its
 value

---
 convst/transformers/_input_transformers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index 536ffb8..bb67ac6 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -24,7 +24,7 @@ from convst import __USE_NUMBA_CACHE__, __USE_NUMBA_PARALLEL__
 
 class c_StandardScaler(StandardScaler):
     def fit(self, X, y=None):
-        self.usefull_atts = np.where(np.std(X, axis=0) != 0)[0]
+        self.usefull_atts = np.where(np.max(X, axis=0) != np.min(X, axis=0))[0]
         return super().fit(X[:, self.usefull_atts], y=y)
 
     def transform(self, X):
@@ -33,7 +33,7 @@ class c_StandardScaler(StandardScaler):
 
 class c_MinMaxScaler(MinMaxScaler):
     def fit(self, X, y=None):
-        self.usefull_atts = np.where(np.std(X, axis=0) != 0)[0]
+        self.usefull_atts = np.where(np.max(X, axis=0) != np.min(X, axis=0))[0]
         return super().fit(X[:, self.usefull_atts], y=y)
 
     def transform(self, X):
-- 
2.43.0


From ea3c8ad6e22da2ae40d0c96b0b44439d5b4a55ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 16/32] fix: grid search folds match whole series, not single
 channels

---
 convst/utils/experiments_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/utils/experiments_utils.py b/convst/utils/experiments_utils.py
index 3f89a64..6969d48 100644
--- a/convst/utils/experiments_utils.py
+++ b/convst/utils/experiments_utils.py
@@ -157,8 +157,8 @@ class _sklearn_cv:
                 X_train, y_train, X_test, y_test = _resample(
                     X_train_0, y_train_0, X_test_0, y_test_0, i
                 )
-            idx_Train = [np.where((X == X_train[j]).all(axis=2))[0][0] for j in range(X_train.shape[0])]
-            idx_Test = [np.where((X == X_test[j]).all(axis=2))[0][0] for j in range(X_test.shape[0])]
+            idx_Train = [np.where((X == X_train[j]).all(axis=(1,2)))[0][0] for j in range(X_train.shape[0])]
+            idx_Test = [np.where((X == X_test[j]).all(axis=(1,2)))[0][0] for j in range(X_test.shape[0])]
             yield idx_Train, idx_Test
     
     def get_n_splits(self, X=None, y=None, groups=None):
-- 
2.43.0


From 40cd31f8aa00d80ed3e4a96edd725f71f0301f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 17/32] fix: load_UCR_UEA_dataset supports variable-length
 datasets

---
 convst/utils/dataset_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/convst/utils/dataset_utils.py b/convst/utils/dataset_utils.py
index ec11c0f..7737bd5 100644
--- a/convst/utils/dataset_utils.py
+++ b/convst/utils/dataset_utils.py
@@ -133,9 +133,11 @@ def load_UCR_UEA_dataset(name, normalize=False):
     X_train, X_test, y_train, y_test, _ = load_UCR_UEA_dataset_split(
         name, normalize=normalize
     )
-    return np.concatenate((X_train, X_test), axis=0), np.concatenate(
-        (y_train, y_test), axis=0
-    )
+    if isinstance(X_train, list):
+        X = X_train + X_test
+    else:
+        X = np.concatenate((X_train, X_test), axis=0)
+    return X, np.concatenate((y_train, y_test), axis=0)
 
 
 def return_all_dataset_names():
-- 
2.43.0


From ee90c0df2b4c1f5b423b92c8771d0c56c9bd3b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 18/32] fix: classifier comparison pairs accuracies by dataset,
 not by row order

---
 convst/utils/plot_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index ca5a03d..da40df6 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -246,6 +246,8 @@ def _wilcoxon_holm(alpha=0.05, df_perf=None):
     Applies the wilcoxon signed rank test between each pair of algorithm and then use Holm
     to reject the null's hypothesis
     """
+    # accuracies are paired by position, so have datasets in the same order
+    df_perf = df_perf.sort_values(['classifier_name', 'dataset_name'])
     # count the number of tested datasets per classifier
     df_counts = pd.DataFrame({'count': df_perf.groupby(
         ['classifier_name']).size()}).reset_index()
-- 
2.43.0


From 21b919ef3703b1cf7baed91c11a0b9ae862b04cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 19/32] fix: draw_cd_diagram saves the diagram where asked

---
 convst/utils/plot_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index da40df6..cca0fc6 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -221,7 +221,8 @@ def draw_cd_diagram(df_perf=None, alpha=0.05, title=None, width=10, labels=False
         if title:
             plt.title(title, fontdict=font, y=0.9, x=0.5)
         if path is None:
-            plt.savefig('cd-diagram.png', bbox_inches='tight')
+            path = 'cd-diagram.png'
+        plt.savefig(path, bbox_inches='tight')
 
 def _form_cliques(p_values, nnames):
     """
-- 
2.43.0


From de5362d8e1ac261f0a407f9bc462e306c560c37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 20/32] fix: pairwise_plot supports a single column of panels

---
 convst/utils/plot_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index cca0fc6..b89ee3b 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -84,6 +84,8 @@ def pairwise_plot(
     fig, ax = plt.subplots(
         ncols=ncols, nrows=nrows, figsize=figsize, sharey=True, dpi=dpi
     )
+    if nrows > 1:
+        ax = np.reshape(ax, (nrows, ncols))
     props = dict(boxstyle='round', facecolor='wheat', alpha=0.75)
     for i, comp in enumerate(competitors):
         if nrows > 1:
-- 
2.43.0


From 7560bdde30126734cd33e430bb765611fbc3859b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 21/32] fix: pairwise_plot counts every dataset exactly once as
 win, draw or loss

---
 convst/utils/plot_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index b89ee3b..3acd04a 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -122,7 +122,7 @@ def pairwise_plot(
             ax[i // ncols, i % ncols].set_xlabel(comp)
     
             textstr = 'W - D - L\n{} - {} - {}'.format(sum(x+margin < y), sum(
-                (x <= y+margin) & (y-margin <= x)), sum(x-margin > y))
+                (x+margin >= y) & (x-margin <= y)), sum(x-margin > y))
             ax[i // ncols, i % ncols].text(0.05, 0.95, textstr, transform=ax[i // ncols, i % ncols].transAxes, fontsize=14,
                                            verticalalignment='top', bbox=props)
         if nrows == 1:
@@ -161,7 +161,7 @@ def pairwise_plot(
                 ax.set_xlabel(comp)
     
                 textstr = 'W - D - L\n{} - {} - {}'.format(sum(x+margin < y), sum(
-                    (x <= y+margin) & (y-margin <= x)), sum(x-margin > y))
+                    (x+margin >= y) & (x-margin <= y)), sum(x-margin > y))
                 ax.text(0.05, 0.95, textstr, transform=ax.transAxes, fontsize=14,
                                                verticalalignment='top', bbox=props)
             else:
@@ -199,7 +199,7 @@ def pairwise_plot(
                 ax[i % ncols].set_xlabel(comp)
         
                 textstr = 'W - D - L\n{} - {} - {}'.format(sum(x+margin < y), sum(
-                    (x <= y+margin) & (y-margin <= x)), sum(x-margin > y))
+                    (x+margin >= y) & (x-margin <= y)), sum(x-margin > y))
                 ax[i % ncols].text(0.05, 0.95, textstr, transform=ax[i % ncols].transAxes, fontsize=14,
                                                verticalalignment='top', bbox=props)
     return fig
-- 
2.43.0


From 5957bf9b15cf5a71085ae8a92633d63251cdd2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 22/32] fix: RDST_interpreter reports multivariate transformers
 as not supported

---
 convst/interpreters/rdst_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/interpreters/rdst_interpreter.py b/convst/interpreters/rdst_interpreter.py
index 2205679..2cf02f7 100644
--- a/convst/interpreters/rdst_interpreter.py
+++ b/convst/interpreters/rdst_interpreter.py
@@ -227,13 +227,13 @@ class RDST_interpreter():
             )
 
     def _get_params(self, id_shapelet):
-        values, lengths, dilations, threshold, normalize = self.RDST.shapelets_
         phase = self.RDST.phase_invariance
         if self.RDST.transform_type in ['multivariate', 'multivariate_variable']:
             raise NotImplementedError(
                 'Interpreter is not yet implemented for multivariate data'
             )
         else:
+            values, lengths, dilations, threshold, normalize = self.RDST.shapelets_
             length_ = lengths[id_shapelet]
             values_ = values[id_shapelet, :length_]
             dilation = dilations[id_shapelet]
-- 
2.43.0


From ebbb968fa65105e3ed7024a196009403f5e54dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 23/32] fix: R_DST can be cloned by scikit-learn

---
 convst/transformers/rdst.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 4723462..e41912e 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -521,11 +521,12 @@ class R_DST(BaseEstimator, TransformerMixin):
         return shapelet_lengths, seed    
     
     def _validate_transform_type(self, transform_type):
-        transform_type = transform_type.lower()
+        lowered = transform_type.lower()
         valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE_VARIABLE,STR_MULTIVARIATE_VARIABLE]
-        if transform_type not in valid:
+        if lowered not in valid:
             raise ValueError('Wrong transform_type parameter value, got {}, valid ones are {}'.format(transform_type, valid))
-        return transform_type
+        # sklearn.base.clone requires valid values to be stored as given
+        return transform_type if transform_type == lowered else lowered
     
     def _validate_percentiles(self, percentiles):
         percentiles = check_array_1D(percentiles)
-- 
2.43.0


From 3713706872a9be80990c0a8220a25a93c5e1417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 24/32] fix: Periodigram with a random window gives scipy a
 plain string

---
 convst/transformers/_input_transformers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index bb67ac6..1b5a2cb 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -121,7 +121,7 @@ class Periodigram(BaseEstimator, TransformerMixin):
         return X_new
 
     def _random_init(self):
-        self.set_params(**{"window_type": np.random.choice(self._get_windows())})
+        self.set_params(**{"window_type": str(np.random.choice(self._get_windows()))})
 
     def _get_windows(self):
         return np.asarray(
-- 
2.43.0


From 5685a7690277275996edf75c1b9454d8f80fce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:24 +0000
Subject: [PATCH 25/32] fix: np.all over one row or one column in compiled code
 reads inside the array

---
 convst/utils/numba_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/convst/utils/numba_utils.py b/convst/utils/numba_utils.py
index e557a32..0a3519d 100644
--- a/convst/utils/numba_utils.py
+++ b/convst/utils/numba_utils.py
@@ -18,8 +18,8 @@ def np_all(x, axis=None):
     # ndarray.all with axis arguments for 2D arrays.
     @register_jitable
     def _np_all_axis0(arr):
-        out = np.logical_and(arr[0], arr[1])
-        for v in iter(arr[2:]):
+        out = np.ones(arr.shape[1], dtype=np.bool_)
+        for v in iter(arr):
             for idx, v_2 in enumerate(v):
                 out[idx] = np.logical_and(v_2, out[idx])
         return out
@@ -31,8 +31,8 @@ def np_all(x, axis=None):
 
     @register_jitable
     def _np_all_axis1(arr):
-        out = np.logical_and(arr[:, 0], arr[:, 1])
-        for idx, v in enumerate(arr[:, 2:]):
+        out = np.ones(arr.shape[0], dtype=np.bool_)
+        for idx, v in enumerate(arr):
             for v_2 in iter(v):
                 out[idx] = np.logical_and(v_2, out[idx])
         return out
-- 
2.43.0


From 4c87e76ecfad68df4ebb31b0fb05cea963237242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:35 +0000
Subject: [PATCH 26/32] fix: max_channels above the number of channels is
 limited to it instead of failing

---
 convst/transformers/rdst.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index e41912e..fd3f910 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -226,7 +226,9 @@ class R_DST(BaseEstimator, TransformerMixin):
         n_samples, n_features, _ = X.shape
         self.n_features_ = n_features
         
-        max_channels = n_features if self.max_channels is None else self.max_channels
+        max_channels = n_features if self.max_channels is None else min(
+            self.max_channels, n_features
+        )
         
         shapelet_lengths, seed = self._check_params(min_len, self._set_lengths(min_len))
         # Generate the shapelets
-- 
2.43.0


From 56867cc995861e724140dd1ce7db0c06a69d4b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 27/32] fix: n_jobs was resolved and applied once at
 construction: it read back changed, and another estimator's construction
 replaced it

---
 convst/classifiers/rdst_ridge.py | 14 +++++++++-----
 convst/transformers/rdst.py      | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/convst/classifiers/rdst_ridge.py b/convst/classifiers/rdst_ridge.py
index a94d7e4..c015318 100644
--- a/convst/classifiers/rdst_ridge.py
+++ b/convst/classifiers/rdst_ridge.py
@@ -138,11 +138,9 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
         self.shapelet_lengths = shapelet_lengths
         self.proba_norm = proba_norm
         self.percentiles = percentiles
-        if isinstance(n_jobs, bool):
-            self.n_jobs = n_jobs
-        else:
-            self.n_jobs = check_n_jobs(n_jobs)
-            set_num_threads(self.n_jobs)
+        if not isinstance(n_jobs, bool):
+            check_n_jobs(n_jobs)
+        self.n_jobs = n_jobs
         self.random_state = random_state
         self.min_len = min_len
 
@@ -153,6 +151,10 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
             "capability:multivariate": True,
         }
 
+    def _set_n_threads(self):
+        if not isinstance(self.n_jobs, bool):
+            set_num_threads(check_n_jobs(self.n_jobs))
+
     def _init_components(self):
         self.classifier = make_pipeline(
             c_StandardScaler(with_mean=True),
@@ -194,6 +196,7 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
         y : array, shape=(n_samples)
             Class of the input time series.
         """
+        self._set_n_threads()
         self._init_components()
         self.transformer = self.transformer.fit(X, y)
         self.classifier = self.classifier.fit(self.transformer.transform(X), y)
@@ -216,6 +219,7 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
 
         """
         check_is_fitted(self, ["classifier"])
+        self._set_n_threads()
         return self.classifier.predict(self.transformer.transform(X))
 
     def score(self, X, y):
diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index fd3f910..6e1b52c 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -152,14 +152,16 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.percentiles = self._validate_percentiles(percentiles)
         check_random_state(random_state)
         self.random_state = random_state
-        if isinstance(n_jobs, bool):
-            self.n_jobs=n_jobs
-        else:
-            self.n_jobs=check_n_jobs(n_jobs)
-            set_num_threads(self.n_jobs)
+        if not isinstance(n_jobs, bool):
+            check_n_jobs(n_jobs)
+        self.n_jobs=n_jobs
         self.max_channels=max_channels
         self.min_len=min_len
     
+    def _set_n_threads(self):
+        if not isinstance(self.n_jobs, bool):
+            set_num_threads(check_n_jobs(self.n_jobs))
+
     def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
             shapelet_lengths = check_array_1D(self.shapelet_lengths)
@@ -201,6 +203,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             Class of the input time series.
 
         """
+        self._set_n_threads()
         self._set_fit_transform(X)
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
@@ -283,6 +286,7 @@ class R_DST(BaseEstimator, TransformerMixin):
         """
         
         check_is_fitted(self, ['shapelets_'])
+        self._set_n_threads()
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X).astype(np.float64)
-- 
2.43.0


From c0c92056fbbdfc61a7ba3ce93eca388ab4482fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 28/32] fix: R_DST_Ensemble.predict ran with whatever number of
 threads was set last

---
 convst/classifiers/rdst_ensemble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index c43797e..5c705b3 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -273,6 +273,8 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
 
     def predict(self, X):
         check_is_fitted(self, ["model_weights"])
+        self._manage_n_jobs()
+        set_num_threads(self.n_jobs_rdst)
         preds_proba = Parallel(
             n_jobs=self.n_jobs_ensemble, prefer=self.prefer, require=self.require
         )(
-- 
2.43.0


From 5be1d4a81c53e17f3ad5a707941d7d4dcf3141b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 29/32] fix: single-precision length fractions and bounds were
 taken for integers

---
 convst/transformers/rdst.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 6e1b52c..f5034dd 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -165,7 +165,7 @@ class R_DST(BaseEstimator, TransformerMixin):
     def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
             shapelet_lengths = check_array_1D(self.shapelet_lengths)
-            if shapelet_lengths.dtype == float:
+            if np.issubdtype(shapelet_lengths.dtype, np.floating):
                 return np.floor(min_len*shapelet_lengths)
             else:
                 return shapelet_lengths
@@ -173,10 +173,10 @@ class R_DST(BaseEstimator, TransformerMixin):
             b0 = self.shapelet_lengths_bounds[0]
             b1 = self.shapelet_lengths_bounds[1]
             
-            if isinstance(b0, float):
+            if isinstance(b0, (float, np.floating)):
                 b0 = int(b0*min_len)
             min_l = max(3,b0)
-            if isinstance(b1, float):
+            if isinstance(b1, (float, np.floating)):
                 b1 = int(b1*min_len)
             max_l = max(4,max(b0+1,b1+1))
             #4 to ensure range 3,4 -> 3
-- 
2.43.0


From 7a37d17936e75d0d8e3435cefcc0033795a3fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 30/32] fix: the ridge interpreter drew the shapelets of an
 earlier fit

---
 convst/interpreters/rdst_interpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/convst/interpreters/rdst_interpreter.py b/convst/interpreters/rdst_interpreter.py
index 2cf02f7..e729e18 100644
--- a/convst/interpreters/rdst_interpreter.py
+++ b/convst/interpreters/rdst_interpreter.py
@@ -430,6 +430,8 @@ class RDST_Ridge_interpreter():
             i+=1
             
         X_new = self.RDST_Ridge.transformer.transform(X)
+        # the classifier may have been fitted again since this object was made
+        self.rdst_interp = RDST_interpreter(self.RDST_Ridge.transformer)
         i_example = np.random.choice(np.where(y==class_id)[0])
         i_example2 = np.random.choice(np.where(y!=class_id)[0])
         y_copy = (y == class_id).astype(int)
-- 
2.43.0


From 1d53c3a19478c5ad9ebf4a0509995b404d6b37b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:43 +0000
Subject: [PATCH 31/32] fix: R_DST_Ridge accepts max_channels, as documented

---
 convst/classifiers/rdst_ridge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convst/classifiers/rdst_ridge.py b/convst/classifiers/rdst_ridge.py
index c015318..2cc0134 100644
--- a/convst/classifiers/rdst_ridge.py
+++ b/convst/classifiers/rdst_ridge.py
@@ -122,6 +122,7 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
         class_weight=None,
         fit_intercept=True,
         alphas_ridge=list(np.logspace(-4, 4, 20)),
+        max_channels=None,
     ):
         self.alphas_ridge = alphas_ridge
         self.class_weight = class_weight
@@ -143,6 +144,7 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
         self.n_jobs = n_jobs
         self.random_state = random_state
         self.min_len = min_len
+        self.max_channels = max_channels
 
     def _more_tags(self):
         return {
@@ -180,6 +182,7 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
             percentiles=self.percentiles,
             random_state=self.random_state,
             min_len=self.min_len,
+            max_channels=self.max_channels,
         )
 
     def fit(self, X, y):
-- 
2.43.0


From f434c9e5778b7017df8ccd13a43c5e5cc7e1259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:19 +0000
Subject: [PATCH 32/32] fix: critical difference diagrams of 18 classifiers or
 more drew lines outside of the figure

---
 convst/utils/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index 3acd04a..2057e7c 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -421,7 +421,7 @@ def _graph_ranks(avranks, names, p_values, cd=None, cdmethod=None, lowv=None, hi
 
     # calculate height needed height of an image
     minnotsignificant = max(2 * 0.2, linesblank)
-    height = cline + ((k + 1) / 2) * 0.2 + minnotsignificant
+    height = cline + ((k + 1) / 2) * 0.24 + minnotsignificant
 
     fig = plt.figure(figsize=(width, height*1.05))
     fig.set_facecolor('white')
-- 
2.43.0

