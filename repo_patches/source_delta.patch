From 1cc2bf77f1b8834ecf91d750bd6807194ed321c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:13 +0000
Subject: [PATCH 01/52] fix: ignore zero-weight values in the weighted CDF of
 the binning

Values of total weight zero were dropped from the cumulative distribution but
kept in the list of unique values, so the two arrays no longer matched.
---
 cyclic_boosting/binning/ecdf_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 723d05e..b8a67fc 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -558,13 +558,13 @@ def calculate_cdf_from_weighted_data(z, w):
         raise ValueError("input vectors must be of same shape")
 
     n_nan = np.count_nonzero(np.isnan(z))
-    z_unique = np.unique(z[~np.isnan(z)])
 
     wsum = np.nansum(w[~np.isnan(z)])
 
     # Accumulate the weights for the unique values.
     uniques = pd.DataFrame({"z": z, "w": w}).groupby(["z"]).agg({"w": "sum"}).reset_index()
     uniques = uniques.loc[uniques["w"] != 0]
+    z_unique = uniques["z"].values
 
     cdf = np.nancumsum(uniques["w"]) / wsum
 
-- 
2.43.0


From a4546386c9cb44c381b08d30185fcedb267a1aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:13 +0000
Subject: [PATCH 02/52] fix: do not overwrite the input of
 ECdfTransformer.transform

Float arrays and float data frames were transformed in place.
---
 cyclic_boosting/binning/ecdf_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index b8a67fc..028c4fb 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -272,7 +272,7 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
         if check_frame_empty(X):
             return X
 
-        Xnp = np.asarray(X, dtype=float)
+        Xnp = np.array(X, dtype=float)
         Xt = Xnp
 
         for col, epsilon, bins_and_cdfs in self.bins_and_cdfs_:
-- 
2.43.0


From 189e2b22de4a5eaa1930b4a83f8520a87b9526a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:13 +0000
Subject: [PATCH 03/52] fix: reject empty feature matrix or empty target

The bitwise or made the check a chained comparison.
---
 cyclic_boosting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 98d11f1..0d416a6 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -945,7 +945,7 @@ class CyclicBoostingBase(
 
     def _check_len_data(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
         """Check that input arrays are not empty"""
-        if len(X) == 0 | len(y) == 0:
+        if len(X) == 0 or len(y) == 0:
             raise ValueError("Estimator should be applied on non-empty data")
 
     def _check_y(self, y: np.ndarray) -> None:
-- 
2.43.0


From a291cf3329ff41fb42074d55bf1efa2fb31e6a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:13 +0000
Subject: [PATCH 04/52] fix: keep rows with missing members in the missing bin

A batch in which every row had a missing member was mapped to the first
multi-dimensional bin when the numbers of bins were given.
---
 cyclic_boosting/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index d82e56e..f81d0e7 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -240,10 +240,7 @@ def multidim_binnos_to_lexicographic_binnos(binnos, n_bins=None, binsteps=None):
     is_valid = np.isfinite(binnos).all(axis=1)
     is_valid[is_valid] &= ((binnos[is_valid] >= 0) & (binnos[is_valid] < n_bins[None, :])).all(axis=1)
 
-    if not np.any(is_valid):
-        result = np.repeat(0, len(binnos))
-    else:
-        result = np.repeat(np.product(n_bins), len(binnos))
+    result = np.repeat(np.product(n_bins), len(binnos))
 
     result[is_valid] = np.dot(np.floor(binnos[is_valid]), binsteps[1:])
 
-- 
2.43.0


From d0bb7bad77957e314a8214e06844fe66f2a979e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:13 +0000
Subject: [PATCH 05/52] fix: subtract removed contribution from a new influence
 category

---
 cyclic_boosting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 0d416a6..324b45b 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -73,7 +73,7 @@ class UpdateMixin(object):
             if influence_category in self.df.columns:
                 self.df[influence_category] -= pred
             else:
-                self.df[influence_category] = pred
+                self.df[influence_category] = -pred
 
     def update_predictions(
         self, pred: np.ndarray, feature: Feature, influence_categories: Optional[dict] = None
-- 
2.43.0


From 21916ae9e4cf25de5f0baec1c8f857315d7051e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:13 +0000
Subject: [PATCH 06/52] fix: forget the feature importances of an earlier fit

---
 cyclic_boosting/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 324b45b..860a410 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -968,6 +968,7 @@ class CyclicBoostingBase(
             return [(feature.feature_id, feature.smoother) for feature in self.features]
 
     def set_feature_importances(self) -> None:
+        self.feature_importances = {}
         for feature in self.features:
             feature.prepare_feature()
             feature.set_feature_bin_deviations_from_neutral(self.neutral_factor_link)
-- 
2.43.0


From 11a037fd45ab14014f5bfb8819fbe72209c1919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:13 +0000
Subject: [PATCH 07/52] fix: report importances and contributions for integer
 column names

---
 cyclic_boosting/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 860a410..c1bfd2a 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -983,7 +983,7 @@ class CyclicBoostingBase(
         else:
             normalized_values = get_normalized_values(self.feature_importances.values())
             norm_feature_importances = {
-                "_".join(feature.feature_id.feature_group): normalized_values[i]
+                "_".join(map(str, feature.feature_id.feature_group)): normalized_values[i]
                 for i, feature in enumerate(self.feature_importances.keys())
             }
             return norm_feature_importances
@@ -1011,7 +1011,7 @@ class CyclicBoostingBase(
         contribution = {}
         for feature in self.features:
             ft = "" if feature.feature_type is None else "_{}".format(feature.feature_type)
-            fg = " ".join(feature.feature_group)
+            fg = " ".join(map(str, feature.feature_group))
             contribution[fg + ft] = self.unlink_func(self._pred_feature(X, feature, is_fit=False))
         return contribution
 
-- 
2.43.0


From 16c9b1cbbe72c98796fbe0091edc370da1abde12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:13 +0000
Subject: [PATCH 08/52] fix: do not clip the prior prediction column of the
 caller in place

---
 cyclic_boosting/nbinom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index 7b7e798..f1c5185 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -144,7 +144,7 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
             prior_prediction_link = np.repeat(self.neutral_factor_link, X.shape[0])
         else:
             prior_pred = get_X_column(X, self.prior_prediction_column)
-            np.clip(prior_pred, 0, 1, prior_pred)
+            prior_pred = np.clip(prior_pred, 0, 1)
             prior_prediction_link = self.link_func(prior_pred)
             finite = np.isfinite(prior_prediction_link)
             prior_prediction_link[~finite] = self.neutral_factor_link
-- 
2.43.0


From b396ba4ca64e869ac785a7626233e91a73342c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:13 +0000
Subject: [PATCH 09/52] fix: accept all arguments passed to observers in the
 base observer

---
 cyclic_boosting/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/observers.py b/cyclic_boosting/observers.py
index 8328b7b..54d5100 100644
--- a/cyclic_boosting/observers.py
+++ b/cyclic_boosting/observers.py
@@ -16,7 +16,7 @@ class BaseObserver(object):
     order to make predictions.
     """
 
-    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state):
+    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
         """
         Called after each iteration of the algorithm.
 
-- 
2.43.0


From 37d76ad272f8d566cdea95fdcf0b606f4dabd972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:28 +0000
Subject: [PATCH 10/52] fix: name all flags in the textual form of feature
 properties

---
 cyclic_boosting/flags.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_boosting/flags.py b/cyclic_boosting/flags.py
index 2d123a1..576d9d3 100644
--- a/cyclic_boosting/flags.py
+++ b/cyclic_boosting/flags.py
@@ -47,6 +47,9 @@ _FLAG_LIST = [
     "CORR_TO_WIDTH",
     "IS_LINEAR",
     "IS_SEASONAL",
+    "HAS_MAGIC_INT_MISSING",
+    "INCREASING",
+    "DECREASING",
 ]
 
 
-- 
2.43.0


From a78c62f3125d29f97654fd5744bba0c1bc28c929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:28 +0000
Subject: [PATCH 11/52] fix: determine default feature groups anew in every fit

The columns of the first training were stored as constructor argument and
used for every later fit.
---
 cyclic_boosting/base.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index c1bfd2a..9991ddc 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -378,9 +378,9 @@ class CyclicBoostingBase(
            are we called in fit() ?
         """
 
-    def _init_default_feature_groups(self, X: Union[pd.DataFrame, np.ndarray]) -> None:
+    def _init_default_feature_groups(self, X: Union[pd.DataFrame, np.ndarray]) -> List:
         """
-        Initializes the ``feature_groups`` to be a list of all
+        Default ``feature_groups``: a list of all
         columns available in ``X`` except the ``prior_prediction_column`` and
         the ``weight_column``.
         """
@@ -390,7 +390,7 @@ class CyclicBoostingBase(
         if self.weight_column is not None:
             exclude_columns.append(self.weight_column)
 
-        self.feature_groups = get_feature_column_names_or_indices(X, exclude_columns=exclude_columns)
+        return get_feature_column_names_or_indices(X, exclude_columns=exclude_columns)
 
     def _init_global_scale(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
         """
@@ -436,12 +436,15 @@ class CyclicBoostingBase(
         if self.weights is None:
             raise RuntimeError("The weights have to be initialized.")
 
-    def _init_features(self) -> None:
+    def _init_features(self, X: Optional[Union[pd.DataFrame, np.ndarray]] = None) -> None:
         """
         Initializes the ``features`` and binds the data belonging to a feature
         to it.
         """
-        self.features = create_features(self.feature_groups, self.feature_properties, self.smoother_choice)
+        feature_groups = self.feature_groups
+        if feature_groups is None and X is not None:
+            feature_groups = self._init_default_feature_groups(X)
+        self.features = create_features(feature_groups, self.feature_properties, self.smoother_choice)
 
     def _get_prior_predictions(self, X: Union[pd.DataFrame, np.ndarray]) -> np.ndarray:
         if self.prior_prediction_column is None:
@@ -703,11 +706,8 @@ class CyclicBoostingBase(
         self._init_weight_column(X)
         self._init_external_column(X, True)
 
-        if self.feature_groups is None:
-            self._init_default_feature_groups(X)
-
         self._check_weights()
-        self._init_features()
+        self._init_features(X)
         self._init_global_scale(X, y)
 
     def _fit_main(self, X: np.ndarray, y: np.ndarray, pred: CBLinkPredictionsFactors) -> np.ndarray:
-- 
2.43.0


From 8d0ddd11c203e8d8952d4dd8779435c9357ee992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:50 +0000
Subject: [PATCH 12/52] fix: accept bins without uncertainty in the polynomial
 smoother

Bins of zero uncertainty, e.g. empty bins or bins already predicted exactly by
the background-subtraction regressor, made the fit divide by zero. They are now
treated as uninformative, as in the isotonic smoother.
---
 cyclic_boosting/smoothing/onedim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/onedim.py b/cyclic_boosting/smoothing/onedim.py
index a050b7d..e27e9a7 100644
--- a/cyclic_boosting/smoothing/onedim.py
+++ b/cyclic_boosting/smoothing/onedim.py
@@ -245,10 +245,11 @@ class OrthogonalPolynomialSmoother(AbstractBinSmoother):
 
         self.minimal_x = np.nanmin(x)
         self.maximal_x = np.nanmax(x)
+        sigma = np.where(X_for_smoother[:, 2] > 0, X_for_smoother[:, 2], 1e12)
         self.pp_, self.n_degrees_ = cy_orthogonal_poly_fit_equidistant(
             x,
             np.ascontiguousarray(y, dtype=np.float64),
-            np.ascontiguousarray(X_for_smoother[:, 2], dtype=np.float64),
+            np.ascontiguousarray(sigma, dtype=np.float64),
         )
 
         return self
-- 
2.43.0


From 5019e01d0fe0a03d348d269940254c48c7bab602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:24 +0000
Subject: [PATCH 13/52] fix: make fit_transform work for the price model

fit_transform trained on predictions without exponents and failed with a
KeyError. The model-specific training now lives where fit and fit_transform
share it.
---
 cyclic_boosting/price.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cyclic_boosting/price.py b/cyclic_boosting/price.py
index 56f3ea0..2567c67 100644
--- a/cyclic_boosting/price.py
+++ b/cyclic_boosting/price.py
@@ -414,18 +414,19 @@ class CBExponential(CBNBinomRegressor):
             pred.update_predictions(feature_predictions, feature, influence_categories)
         return pred
 
-    def fit(self, X, y=None):
+    def _fit_predict(self, X, y=None):
+        y = np.asarray(y)
         self._init_fit(X, y)
         pred = CBLinkPredictions(
             self._get_prior_predictions(X),
             self._get_prior_exponent(X),
             self.external_col,
         )
-        _ = self._fit_main(X, y, pred)
+        prediction = self._fit_main(X, y, pred)
         del self.external_col
         del self.weights_external
 
-        return self
+        return prediction
 
 
 def gamma_momemt_matching(factors, variance_factors, link_func):
-- 
2.43.0


From 57d064822cd94ed823af6f3e0b59e4e26ed68afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:24 +0000
Subject: [PATCH 14/52] fix: make fit_transform work for the dispersion model

The means were only set by fit, so fit_transform failed with an
AttributeError.
---
 cyclic_boosting/nbinom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index f1c5185..1409145 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -133,11 +133,11 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
         # TODO: use weights
         return loss_nbinom_c(y.astype(np.float64), self.mu, c, self.gamma)
 
-    def fit(self, X, y=None):
+    def _fit_predict(self, X, y=None):
         self.mu = X[self.mean_prediction_column].values
-        _ = self._fit_predict(X, y)
+        prediction = super()._fit_predict(X, y)
         del self.mu
-        return self
+        return prediction
 
     def _get_prior_predictions(self, X):
         if self.prior_prediction_column is None:
-- 
2.43.0


From 9db25ecffd620cdcd4855f3c30a7581e639c3aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:02 +0000
Subject: [PATCH 15/52] fix: do not remove effects twice after a diverging
 cycle

Without aggregation a feature's effect is removed from the prediction before
its next update. After a diverging cycle it had been removed already, so the
in-sample prediction no longer matched the model.
---
 cyclic_boosting/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 9991ddc..0821b14 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -570,6 +570,8 @@ class CyclicBoostingBase(
             pred.remove_predictions(feature_predictions, feature)
 
             feature.fitted_aggregated -= feature.factors_link
+            if not self.aggregate:
+                feature.factors_link = np.ones(feature.n_bins) * self.neutral_factor_link
             feature.unbind_data()
 
     def _set_factors_per_feature(self, feature: Feature) -> Tuple[float, int]:
-- 
2.43.0


From 69d6af0cf1a0177cc18f707d38dfb3f70b2c4e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:02 +0000
Subject: [PATCH 16/52] fix: allow divergence while only hierarchical groups
 are trained

Undoing a diverging cycle, or ignoring a group because of it, failed with a
TypeError when some groups had not been trained yet.
---
 cyclic_boosting/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 0821b14..a22a426 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -559,6 +559,8 @@ class CyclicBoostingBase(
 
     def remove_preds(self, pred: CBLinkPredictionsFactors, X: np.ndarray) -> None:
         for feature in self.features:
+            if not feature.is_fitted:
+                continue
             if feature.feature_type is None:
                 weights = self.weights
             else:
@@ -630,7 +632,10 @@ class CyclicBoostingBase(
                             feature.feature_group
                         )
                         warnings.warn(msg)
-                        feature.factors_link = -feature.fitted_aggregated
+                        if feature.is_fitted:
+                            feature.factors_link = -feature.fitted_aggregated
+                        else:
+                            feature.factors_link = np.ones(feature.n_bins) * self.neutral_factor_link
                         feature.smoother = ZeroSmoother()
                 elif check_diverged():
                     msg = "Feature factors for {} will be clipped due to diverging loss".format(feature.feature_group)
-- 
2.43.0


From 397b93b76bd64927bb4558981e2cc0506ef4ec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:03 +0000
Subject: [PATCH 17/52] fix: dispersion effects of bins without training rows
 stay neutral

---
 cyclic_boosting/nbinom.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index 1409145..5e14f06 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -126,6 +126,7 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
         )
 
         bincounts = np.bincount(binnumbers, minlength=minlength)
+        c_link_estimate[bincounts < 1] = self.neutral_factor_link
         bincounts[bincounts < 1] = 1.0
         return c_link_estimate, 1.0 / np.sqrt(bincounts)
 
-- 
2.43.0


From a3568cbbf3a647352dee472ee30728346da88792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:41 +0000
Subject: [PATCH 18/52] fix: generic classifier leaves bins without training
 rows neutral

---
 cyclic_boosting/generic_loss.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index c8963fa..5565c25 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -94,6 +94,7 @@ class CBGenericLoss(CyclicBoostingBase):
             epsilon = 1e-5
             parameters = np.where(np.abs(parameters) < epsilon, epsilon, parameters)
             parameters = np.log(parameters)
+        parameters[empty_bins] = self.neutral_factor_link
 
         return parameters, uncertainties
 
-- 
2.43.0


From 32ff2b3ce22183cc281861eda2d0337a3988a1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:00 +0000
Subject: [PATCH 19/52] fix: classifiers keep a finite base value when almost
 all targets are one

---
 cyclic_boosting/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index a22a426..e56902b 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -16,7 +16,7 @@ from cyclic_boosting import common_smoothers, learning_rate, link
 from cyclic_boosting.binning import get_feature_column_names_or_indices
 from cyclic_boosting.common_smoothers import SmootherChoice
 from cyclic_boosting.features import create_features, Feature, FeatureList, FeatureTypes, create_feature_id
-from cyclic_boosting.link import IdentityLinkMixin, LogLinkMixin
+from cyclic_boosting.link import IdentityLinkMixin, LogitLinkMixin, LogLinkMixin
 from cyclic_boosting.utils import (
     slice_finite_semi_positive,
     nans,
@@ -405,7 +405,10 @@ class CyclicBoostingBase(
             raise RuntimeError("The weights have to be initialized.")
 
         minimal_prediction = 0.001
-        self.global_scale_link_ = self.link_func(np.sum(y * self.weights) / np.sum(self.weights) + minimal_prediction)
+        mean_y = np.sum(y * self.weights) / np.sum(self.weights) + minimal_prediction
+        if isinstance(self, LogitLinkMixin):
+            mean_y = min(mean_y, 1.0 - minimal_prediction)
+        self.global_scale_link_ = self.link_func(mean_y)
 
         if self.prior_prediction_column is not None:
             prior_pred = get_X_column(X, self.prior_prediction_column)
-- 
2.43.0


From f702668737c69cc82b01a6e019a6e304f46d2713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:40 +0000
Subject: [PATCH 20/52] fix: additive models with default feature groups refuse
 to predict before fitting

---
 cyclic_boosting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index e56902b..106ae8d 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -950,7 +950,7 @@ class CyclicBoostingBase(
 
     def _check_fitted(self) -> None:
         """Check if fit was called"""
-        if self.features is None:
+        if self.features is None or self.global_scale_link_ is None:
             raise ValueError("fit must be called first.")
 
     def _check_len_data(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
-- 
2.43.0


From 88bb32570225430fd8d9eb220c4e50955d77373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:40 +0000
Subject: [PATCH 21/52] fix: reject a single target value for several training
 rows

---
 cyclic_boosting/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 106ae8d..5125ad7 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -957,6 +957,8 @@ class CyclicBoostingBase(
         """Check that input arrays are not empty"""
         if len(X) == 0 or len(y) == 0:
             raise ValueError("Estimator should be applied on non-empty data")
+        if len(X) != len(y):
+            raise ValueError("X and y must have the same number of rows")
 
     def _check_y(self, y: np.ndarray) -> None:
         """Check that y has the correct values. Has to be
-- 
2.43.0


From 836d6a6e62abefc6dba11fc530e5052d80490225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:40 +0000
Subject: [PATCH 22/52] fix: reject infinite targets of multiplicative and
 dispersion models

---
 cyclic_boosting/generic_loss.py | 2 +-
 cyclic_boosting/nbinom.py       | 2 +-
 cyclic_boosting/regression.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index 5565c25..b99677f 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -590,7 +590,7 @@ def uncertainty_beta(y: np.ndarray, weights: np.ndarray, link_func) -> float:
 
 def check_y_multiplicative(y: np.ndarray) -> None:
     """Check that y has no negative values."""
-    if not (y >= 0.0).all():
+    if not ((y >= 0.0) & (y < np.inf)).all():
         raise ValueError(
             "The target y must be positive semi-definite " "and not NAN. y[~(y>=0)] = {0}".format(y[~(y >= 0)])
         )
diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index 5e14f06..2a204ac 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -100,7 +100,7 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
 
     def _check_y(self, y):
         """Check that y has no negative values."""
-        if not (y >= 0.0).all():
+        if not ((y >= 0.0) & (y < np.inf)).all():
             raise ValueError(
                 "The target y must be positive semi-definite " "and not NAN. y[~(y>=0)] = {0}".format(y[~(y >= 0)])
             )
diff --git a/cyclic_boosting/regression.py b/cyclic_boosting/regression.py
index 5493553..1486de9 100644
--- a/cyclic_boosting/regression.py
+++ b/cyclic_boosting/regression.py
@@ -68,7 +68,7 @@ class CBBaseRegressor(CyclicBoostingBase, sklearn.base.RegressorMixin, LogLinkMi
 
     def _check_y(self, y: np.ndarray) -> None:
         """Check that y has no negative values."""
-        if not (y >= 0.0).all():
+        if not ((y >= 0.0) & (y < np.inf)).all():
             raise ValueError(
                 "The target y must be positive semi-definite " "and not NAN. y[~(y>=0)] = {0}".format(y[~(y >= 0)])
             )
-- 
2.43.0


From de0fe986226941c3a336aa5865c4f8c47ac08e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:40 +0000
Subject: [PATCH 23/52] fix: background subtraction regressor rejects
 non-finite targets

---
 cyclic_boosting/GBSregression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/GBSregression.py b/cyclic_boosting/GBSregression.py
index 01c1596..4fe583e 100644
--- a/cyclic_boosting/GBSregression.py
+++ b/cyclic_boosting/GBSregression.py
@@ -91,7 +91,8 @@ class CBGBSRegressor(RegressorMixin, CyclicBoostingBase, IdentityLinkMixin):
         return summand, np.sqrt(variance_summand)
 
     def _check_y(self, y: np.ndarray):
-        pass
+        if not np.isfinite(y).all():
+            raise ValueError("The target y must be real value and not NAN.")
 
     def _init_global_scale(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
         if self.weights is None:
-- 
2.43.0


From b6c39cc2859202c6f9cba6fd3a987deb6563e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:02:38 +0000
Subject: [PATCH 24/52] fix: interpolate tied quantile values in units of the
 weights and at most to the next value

---
 cyclic_boosting/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index f81d0e7..f05219a 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -1044,15 +1044,17 @@ def continuous_quantile_from_discrete_pdf(y, quantile, weights):
 
     sorting = y.argsort()
     sorted_y = y[sorting]
-    cumsum = weights[sorting].cumsum()
+    sorted_weights = weights[sorting]
+    cumsum = sorted_weights.cumsum()
     quantile_index = weights.sum() * quantile
     quantile_y = sorted_y[cumsum >= quantile_index][0]
 
-    all_quantile_y = np.where(sorted_y == quantile_y)[0]
-    index_low = all_quantile_y[0]
-    index_high = all_quantile_y[-1]
-    if index_high > index_low:
-        quantile_y += (int(quantile_index) - index_low) / (index_high - index_low)
+    all_quantile_y = np.where((sorted_y == quantile_y) & (sorted_weights > 0))[0]
+    if len(all_quantile_y) > 1:
+        index_low = cumsum[all_quantile_y[0]] - sorted_weights[all_quantile_y[0]]
+        index_high = cumsum[all_quantile_y[-1]] - 1
+        if index_high > index_low:
+            quantile_y += np.clip((int(quantile_index) - index_low) / (index_high - index_low), 0, 1)
 
     return quantile_y
 
-- 
2.43.0


From d2169c419600d36c010bb21029f722c2ea38ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:24:13 +0000
Subject: [PATCH 25/52] fix: start the histories of a plotting observer anew
 with every training

Refitting an estimator appended to the loss and factor change histories of its
plotting observers, so that they mixed several trainings.
---
 cyclic_boosting/observers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cyclic_boosting/observers.py b/cyclic_boosting/observers.py
index 54d5100..4e77b94 100644
--- a/cyclic_boosting/observers.py
+++ b/cyclic_boosting/observers.py
@@ -142,6 +142,11 @@ class PlottingObserver(BaseObserver):
         """
         features = estimator_state["features"]
 
+        if iteration == 0:
+            # a new training starts
+            self.loss = list()
+            self.factor_change = list()
+
         if (iteration <= self.iteration and iteration != -1) or self.iteration == -1:
             self.loss.append(estimator_state["insample_loss"])
             if iteration != 0:
-- 
2.43.0


From 2245b8d8e59cef18dad3427aaaa1a4739592600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:24:56 +0000
Subject: [PATCH 26/52] fix: report importances of standard and price features
 separately

A feature group used both as a standard and as an external group of
CBExponential got one entry only, so the importances no longer summed to one.
The external one is now marked as in get_feature_contributions.
---
 cyclic_boosting/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 5125ad7..36f67cf 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -995,7 +995,10 @@ class CyclicBoostingBase(
         else:
             normalized_values = get_normalized_values(self.feature_importances.values())
             norm_feature_importances = {
-                "_".join(map(str, feature.feature_id.feature_group)): normalized_values[i]
+                "_".join(
+                    list(map(str, feature.feature_id.feature_group))
+                    + ([] if feature.feature_type is None else [str(feature.feature_type)])
+                ): normalized_values[i]
                 for i, feature in enumerate(self.feature_importances.keys())
             }
             return norm_feature_importances
-- 
2.43.0


From 17e20705f46943ed8fc6dc3efbda38628892419b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:32:18 +0000
Subject: [PATCH 27/52] fix: keep multiplicative quantile models from starting
 at a global scale of zero

When the requested quantile of all targets was zero, the global scale was
zero as well and no factor could move any prediction away from zero.
---
 cyclic_boosting/generic_loss.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index b99677f..8a99eae 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -377,7 +377,11 @@ class CBQuantileRegressor(CBGenericLoss, sklearn.base.RegressorMixin):
         if weights is None:
             raise RuntimeError("The weights have to be initialized.")
 
-        global_scale_link_ = link_func(continuous_quantile_from_discrete_pdf(y, quantile, weights))
+        global_scale = continuous_quantile_from_discrete_pdf(y, quantile, weights)
+        global_scale_link_ = link_func(global_scale)
+        if global_scale == 0 and not np.isfinite(global_scale_link_):
+            # no factor could lift the prediction from a vanishing global scale
+            global_scale_link_ = link_func(0.001)
 
         prior_pred_link_offset_ = None
         if prior_prediction_column is not None:
-- 
2.43.0


From 9c1b3ef2f35e3f29ea456af8a4336900b603e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:22:25 +0000
Subject: [PATCH 28/52] fix: keep equal neighbouring values when regularizing
 to their mean

A window of identical values has no spread, which turned the result into
not-a-number instead of the common value.
---
 cyclic_boosting/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index f05219a..127626f 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -884,7 +884,8 @@ def regularize_to_error_weighted_mean_neighbors(
     for i in range(len(x)):
         wx_incl[i] = (sum_wx / np.convolve(wx * np.square(x - x_mean[i]), window_arr, "same"))[i]
 
-    res = (wx * x + wx_incl * x_mean) / (wx + wx_incl)
+    # if all values in the window are the same, there is nothing to regularize
+    res = np.where(np.isposinf(wx_incl), x_mean, (wx * x + wx_incl * x_mean) / (wx + wx_incl))
     return res
 
 
-- 
2.43.0


From c07ebe2c5283f1161d04edd8e1364150ad05ac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:22:25 +0000
Subject: [PATCH 29/52] fix: do not overwrite the input of
 OrthogonalPolynomialSmoother.predict

For a contiguous float column the positions outside of the fitted range were
clipped in the array of the caller.
---
 cyclic_boosting/smoothing/onedim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/onedim.py b/cyclic_boosting/smoothing/onedim.py
index e27e9a7..425fc64 100644
--- a/cyclic_boosting/smoothing/onedim.py
+++ b/cyclic_boosting/smoothing/onedim.py
@@ -258,7 +258,7 @@ class OrthogonalPolynomialSmoother(AbstractBinSmoother):
         assert X.ndim == 2
         if not hasattr(self, "pp_"):
             raise ValueError("The {} has not been fitted!".format(self.__class__.__name__))
-        x = np.ascontiguousarray(X[:, 0], dtype=np.float64)
+        x = np.array(X[:, 0], dtype=np.float64)
         x[x < self.minimal_x] = self.minimal_x
         x[x > self.maximal_x] = self.maximal_x
         y = cy_apply_orthogonal_poly_fit_equidistant(x, self.pp_, self.n_degrees_)
-- 
2.43.0


From 975fc8b93c74436b6d4137c629f6cd73b5690729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:22:25 +0000
Subject: [PATCH 30/52] fix: honour the nan_representation passed to
 SectionSmoother

The argument was ignored and not-a-number always used.
---
 cyclic_boosting/smoothing/meta_smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/meta_smoother.py b/cyclic_boosting/smoothing/meta_smoother.py
index b5543f9..a81c36a 100644
--- a/cyclic_boosting/smoothing/meta_smoother.py
+++ b/cyclic_boosting/smoothing/meta_smoother.py
@@ -263,7 +263,7 @@ class SectionSmoother(AbstractBinSmoother):
         self.split_point = split_point
         self.smoother_lower = smoother_lower
         self.smoother_upper = smoother_upper
-        self.nan_representation = np.nan
+        self.nan_representation = nan_representation
         self.epsilon = epsilon
         self._reset_smoother_status()
 
-- 
2.43.0


From f0b67217f7fdc77ad830ab04ec22ca4cee96909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:36:47 +0000
Subject: [PATCH 31/52] fix: allow subclassing the group-by smoother choice

wrap_smoother looked up its parent through self.__class__, which recurses without end in a subclass.
---
 cyclic_boosting/common_smoothers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/common_smoothers.py b/cyclic_boosting/common_smoothers.py
index 400ae30..5023e12 100644
--- a/cyclic_boosting/common_smoothers.py
+++ b/cyclic_boosting/common_smoothers.py
@@ -320,7 +320,7 @@ class SmootherChoiceGroupBy(SmootherChoice):
         # only the properties of the innermost feature should
         # determine the regression type of the groupby smoother:
         if not isinstance(smoother, smoothing.multidim.GroupBySmootherCB):
-            return super(self.__class__, self).wrap_smoother(
+            return super(SmootherChoiceGroupBy, self).wrap_smoother(
                 smoother, feature_group, feature_property[-1], feature_type
             )
         else:
-- 
2.43.0


From 96dab1fc65d6eb67d5741459a5e43efacfe5f23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:04 +0000
Subject: [PATCH 32/52] fix: symmetric triplets in quantile-parameterized
 distributions

J_QPD_S and J_QPD_B returned NaN for symmetric triplets, and the extended
versions missed the given outer quantiles.
---
 cyclic_boosting/quantile_matching.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 5c00597..096a1ca 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -1,5 +1,5 @@
 import numpy as np
-from numpy import exp, sinh, arcsinh, arccosh
+from numpy import exp, sinh, arcsinh
 import pandas as pd
 from scipy.optimize import curve_fit, minimize_scalar
 from scipy.stats import norm, gamma, nbinom, logistic, mstats
@@ -9,6 +9,14 @@ from sklearn.base import BaseEstimator
 from typing import Optional, Union, Tuple
 
 
+def _arccosh_above_zero(x: Union[float, np.ndarray]) -> Union[float, np.ndarray]:
+    """
+    Inverse hyperbolic cosine with a small positive lower limit, which
+    approximates the limiting case of symmetric SPTs (x = 1, up to rounding).
+    """
+    return np.maximum(np.arccosh(np.maximum(x, 1.0)), 1e-6)
+
+
 class J_QPD_S:
     """
     Implementation of the semi-bounded mode of Johnson Quantile-Parameterized
@@ -73,7 +81,7 @@ class J_QPD_S:
             1.0
             / self.c
             * np.sinh(
-                np.arccosh(
+                _arccosh_above_zero(
                     (self.H - self.L)
                     / (2 * np.where((self.B - self.L) < (self.H - self.B), (self.B - self.L), (self.H - self.B)))
                 )
@@ -232,7 +240,7 @@ class J_QPD_B:
         self.delta = (
             1.0
             / self.c
-            * np.arccosh(
+            * _arccosh_above_zero(
                 (self.H - self.L)
                 / (2 * np.where((self.B - self.L) < (self.H - self.B), self.B - self.L, self.H - self.B))
             )
@@ -363,8 +371,8 @@ def unconstrained_calc(L: float, B: float, H: float) -> Tuple[float, float, floa
 
     if gamma == 0:
         xi = B
-        kappa = H - B
-        delta = 1
+        delta = 1.0 / _arccosh_above_zero(1.0)
+        kappa = (H - B) / sinh(1.0 / delta)
     else:
         if gamma < 0:
             xi = L
@@ -372,7 +380,7 @@ def unconstrained_calc(L: float, B: float, H: float) -> Tuple[float, float, floa
         else:
             xi = H
             theta = (H - B) / (H - L)
-        delta = 1.0 / arccosh(1 / (2.0 * theta))
+        delta = 1.0 / _arccosh_above_zero(1 / (2.0 * theta))
         kappa = (H - L) / sinh(2.0 / delta)
 
     return gamma, xi, kappa, delta
-- 
2.43.0


From e02f3ccaf796e3f091b5c0fc63e81ef44cee7269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:47:29 +0000
Subject: [PATCH 33/52] fix: training of the bounded quantile regressor chain

The upper quantile model used the bounds of all rows for the rows above the
median only, which failed with a shape mismatch.
---
 cyclic_boosting/quantile_matching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 096a1ca..d4adcb3 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -809,7 +809,7 @@ class QPD_RegressorChain(BaseEstimator):
         if self.bound == "S":
             y_trans = transform_from_semibound_lower(y_trans, 0)
         elif self.bound == "B":
-            y_trans = transform_from_bounds(y_trans, 0, (self.u - pred_median) / (pred_median - pred_lowq))
+            y_trans = transform_from_bounds(y[mask], pred_median[mask], self.u)
         self.est_highq.fit(X[mask], y_trans)
 
         return self
-- 
2.43.0


From bb56b94273babb6b575eb8d70d63f7b6ee6db17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:47:29 +0000
Subject: [PATCH 34/52] fix: lower quantile model of the regressor chain for
 ranges below zero

Dividing by the predicted median selected the wrong rows when it was negative.
---
 cyclic_boosting/quantile_matching.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index d4adcb3..e4041c0 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -794,10 +794,8 @@ class QPD_RegressorChain(BaseEstimator):
             pred_median = back_transform_in_bounds(z, self.l, self.u)
 
         # lower quantile model
-        y_trans = y / pred_median
-        mask = y_trans < 1
-        y_trans = y_trans[mask]
-        y_trans = transform_from_bounds(y_trans, self.l / pred_median[mask], 1)
+        mask = y < pred_median
+        y_trans = transform_from_bounds(y[mask], self.l, pred_median[mask])
         self.est_lowq.fit(X[mask], y_trans)
         z = self.est_lowq.predict(X)
         pred_lowq = back_transform_in_bounds(z, self.l, pred_median)
-- 
2.43.0


From 30714d394e423a3b6550e95ebcf95dcdd86ad0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:41 +0000
Subject: [PATCH 35/52] fix: start values of the negative binomial quantile fit

The fit started at a mean of 2.2 whatever the quantiles, and returned the
start values unchanged when they were far away.
---
 cyclic_boosting/quantile_matching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index e4041c0..bb25366 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -956,7 +956,8 @@ def quantile_fit_nbinom(quantiles: np.ndarray, quantile_values: np.ndarray, mode
     callable
         fitted negative binomial function (see mode)
     """
-    mu, var = curve_fit(_nbinom_cdf_mu_var, quantile_values, quantiles, p0=[2.2, 2.4])[0]
+    mu_start = max(np.mean(quantile_values), 0.1)
+    mu, var = curve_fit(_nbinom_cdf_mu_var, quantile_values, quantiles, p0=[mu_start, 1.5 * mu_start])[0]
     n = mu * mu / (var - mu)
     p = mu / var
     if mode == "ppf":
-- 
2.43.0


From 24297c34dae355f6c6008e7d65dccb667f7ff742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:50:14 +0000
Subject: [PATCH 36/52] fix: start values of the Gaussian quantile fit

Far from the default start values the width could become negative, and the fit
stopped far away from the given quantiles.
---
 cyclic_boosting/quantile_matching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index bb25366..27c55ba 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -858,7 +858,8 @@ def quantile_fit_gaussian(quantiles: np.ndarray, quantile_values: np.ndarray, mo
     def f(x, mu, sigma):
         return norm(loc=mu, scale=sigma).ppf(x)
 
-    mu, sigma = curve_fit(f, quantiles, quantile_values)[0]
+    start = [np.mean(quantile_values), np.std(quantile_values) or 1.0]
+    mu, sigma = curve_fit(f, quantiles, quantile_values, p0=start)[0]
     if mode == "ppf":
         return norm(mu, sigma).ppf
     elif mode == "dist":
-- 
2.43.0


From c6f077798ab7ef70f54c3b24f5ed8b7b3c17e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:20:24 +0000
Subject: [PATCH 37/52] fix: pass a and c to CBExponential in its pipeline

pipeline_CBExponential accepted the variance parameters a and c but dropped
them, so the model was always trained with the defaults.
---
 cyclic_boosting/pipelines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclic_boosting/pipelines.py b/cyclic_boosting/pipelines.py
index f7689de..c27fe7f 100644
--- a/cyclic_boosting/pipelines.py
+++ b/cyclic_boosting/pipelines.py
@@ -101,6 +101,8 @@ def pipeline_CB(
             learn_rate=learn_rate,
             var_prior_exponent=var_prior_exponent,
             prior_exponent_colname=prior_exponent_colname,
+            a=a,
+            c=c,
         )
     elif estimator == CBNBinomC:
         estimatorCB = estimator(
-- 
2.43.0


From 71f8b01b4ddb6e7af7737af1421284ef1783ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:20:42 +0000
Subject: [PATCH 38/52] fix: keep the external column of a price model local to
 each prediction

CBExponential parked the external column of the rows being predicted on the
estimator, so two threads predicting with the same model could use each
other's prices.
---
 cyclic_boosting/price.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cyclic_boosting/price.py b/cyclic_boosting/price.py
index 2567c67..f14aad7 100644
--- a/cyclic_boosting/price.py
+++ b/cyclic_boosting/price.py
@@ -291,12 +291,14 @@ class CBExponential(CBNBinomRegressor):
             if any value in 'external_col' is smaller equal zero
 
         """
-        self.external_col = get_X_column(X, self.external_colname) - 1
-        is_finite = np.isfinite(self.external_col)
-        self.external_col[~is_finite] = 0
+        external_col = get_X_column(X, self.external_colname) - 1
+        is_finite = np.isfinite(external_col)
+        external_col[~is_finite] = 0
         if is_fit:
+            self.external_col = external_col
             self.weights_external = np.asarray(is_finite, dtype=np.float64)
             self.weights_external *= self.weights
+        return external_col
 
     def _get_prior_exponent(self, X):
         if self.prior_exponent_colname is None:
@@ -404,10 +406,10 @@ class CBExponential(CBNBinomRegressor):
 
     def predict_extended(self, X, influence_categories):
         self._check_fitted()
-        self._init_external_column(X, False)
+        external_col = self._init_external_column(X, False)
 
         prediction_link = self._get_prior_predictions(X)
-        pred = CBLinkPredictions(prediction_link, self._get_prior_exponent(X), self.external_col)
+        pred = CBLinkPredictions(prediction_link, self._get_prior_exponent(X), external_col)
 
         for feature in self.features:
             feature_predictions = self._pred_feature(X, feature, is_fit=False)
-- 
2.43.0


From cecb80ddac54c02ef49671626f4be7860eaa176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:59 +0000
Subject: [PATCH 39/52] fix: keep bin centres aligned with means when a
 prediction bin has no weight

A bin holding only rows of weight zero has an undefined mean. Its centre was
dropped while its mean was kept, so the diagonal plot got lists of different
length.
---
 cyclic_boosting/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/observers.py b/cyclic_boosting/observers.py
index 4e77b94..3d091fc 100644
--- a/cyclic_boosting/observers.py
+++ b/cyclic_boosting/observers.py
@@ -227,7 +227,7 @@ def calc_in_sample_histograms(y, pred, weights, quantile=None):
     if quantile is not None:
         means = utils.calc_weighted_quantile(bin_numbers, y, weights, quantile)
         errors = None
-    bin_centers = bin_centers[np.where(~np.isnan(means.reindex(np.arange(1, nbins + 1))))]
+    bin_centers = bin_centers[np.isin(np.arange(1, nbins + 1), means.index)]
     # quantiles do not work for classification mode
     if np.isin(y, [0, 1]).all():
         return means, bin_centers, None, counts
-- 
2.43.0


From 7f4ba941e087dc15a61171ce62d3321a4cd0ee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:59 +0000
Subject: [PATCH 40/52] fix: report the weight of a group as its count also for
 equal weights

Counts are sums of weights, but with all weights equal the number of rows
was returned whatever the weight.
---
 cyclic_boosting/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index 127626f..5300cfe 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -491,8 +491,11 @@ def calc_means_medians(binnumbers, y, weights=None):
     """
     with warnings.catch_warnings(record=False):
         warnings.simplefilter("ignore")
-        if weights is None or len(np.unique(weights)) == 1:
+        if weights is None:
             return _calc_means_medians_evenly_weighted(binnumbers, y)
+        elif len(np.unique(weights)) == 1:
+            means, medians, counts, errors = _calc_means_medians_evenly_weighted(binnumbers, y)
+            return means, medians, counts * np.unique(weights)[0], errors
         else:
             return _calc_means_medians_with_weights(binnumbers, y, weights)
 
-- 
2.43.0


From 33a575274bd59acf2c773bbecb77d9c17ab22713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:46 +0000
Subject: [PATCH 41/52] fix: do not overwrite recorded bin weights when drawing
 two-dimensional factors

The reshaped weights are a view on the array held by the observer, so the
replacement of zeros for the marginal plots ended up in the recorded data.
---
 cyclic_boosting/plots/_2dplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/plots/_2dplots.py b/cyclic_boosting/plots/_2dplots.py
index 9b6a9b4..9629df8 100644
--- a/cyclic_boosting/plots/_2dplots.py
+++ b/cyclic_boosting/plots/_2dplots.py
@@ -166,7 +166,7 @@ def plot_factor_2d(n_bins_finite, feature, grid_item=None):
     )
 
     def plot_marginal(axis):
-        w1 = np.reshape(weights[:-1], n_bins_finite)
+        w1 = np.reshape(weights[:-1], n_bins_finite).copy()
         w1[w1 == 0.0] = 1.0
         w = np.sum(w1, axis=axis)
 
-- 
2.43.0


From 825c53fadb9feb9f2774927cccca9918c0cfbb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:46 +0000
Subject: [PATCH 42/52] fix: draw factor plots of models trained on arrays

Feature groups of array columns are integers, which cannot be joined to a
title without conversion.
---
 cyclic_boosting/plots/_2dplots.py | 4 ++--
 cyclic_boosting/plots/__init__.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cyclic_boosting/plots/_2dplots.py b/cyclic_boosting/plots/_2dplots.py
index 9629df8..6ca7041 100644
--- a/cyclic_boosting/plots/_2dplots.py
+++ b/cyclic_boosting/plots/_2dplots.py
@@ -46,8 +46,8 @@ def _imshow_factors_2d(ax, factors, nan_factor, nan_uncertainty, title, clim, fe
     feature
         Feature object for the feature that is shown
     """
-    first_feature_name = feature.feature_group[0] + (feature.feature_type or "")
-    second_feature_name = feature.feature_group[1] + (feature.feature_type or "")
+    first_feature_name = str(feature.feature_group[0]) + (feature.feature_type or "")
+    second_feature_name = str(feature.feature_group[1]) + (feature.feature_type or "")
 
     plt.sca(ax)
     if len(factors) == 0:
diff --git a/cyclic_boosting/plots/__init__.py b/cyclic_boosting/plots/__init__.py
index 3858b81..900fbb9 100644
--- a/cyclic_boosting/plots/__init__.py
+++ b/cyclic_boosting/plots/__init__.py
@@ -272,7 +272,7 @@ def plot_factors(
 
 
 def _format_groupname_with_type(feature_group, feature_type):
-    name = ", ".join(feature_group)
+    name = ", ".join(str(name) for name in feature_group)
     if feature_type is None:
         return name
     else:
-- 
2.43.0


From 7f82bc976ebff96123074eea44b473b4ffb6de49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:46 +0000
Subject: [PATCH 43/52] fix: record a value for every bin of a quantile model

When the last cells of an interaction were empty, the recorded truth and
prediction were shorter than the number of bins and the report could not be
drawn.
---
 cyclic_boosting/generic_loss.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index 8a99eae..93e7fa3 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -271,7 +271,8 @@ class CBQuantileRegressor(CBGenericLoss, sklearn.base.RegressorMixin):
             feature.bind_data(X, weights)
 
             sum_w, _, sum_pw = (
-                np.bincount(feature.lex_binned_data, weights=w) for w in [weights, weights * y, weights * prediction]
+                np.bincount(feature.lex_binned_data, weights=w, minlength=feature.n_bins)
+                for w in [weights, weights * y, weights * prediction]
             )
 
             df = pd.DataFrame({"y": y, "weights": weights, "binnumbers": feature.lex_binned_data})
@@ -289,19 +290,14 @@ class CBQuantileRegressor(CBGenericLoss, sklearn.base.RegressorMixin):
             mean_prediction_binned = np.where(np.isfinite(mean_prediction_binned), mean_prediction_binned, 1.0)
 
             # keep potential empty bins in multi-dimensional features
-            all_bins = range(max(feature.lex_binned_data) + 1)
-            empty_bins = list(set(np.unique(feature.lex_binned_data)) ^ set(all_bins))
+            all_bins = range(feature.n_bins)
+            empty_bins = sorted(set(np.unique(feature.lex_binned_data)) ^ set(all_bins))
             for i in empty_bins:
                 mean_target_binned = np.insert(mean_target_binned, i, 1.0)
 
             mean_y_finite = continuous_quantile_from_discrete_pdf(y, self.quantile, weights)
             mean_prediction_finite = np.sum(sum_pw) / np.sum(sum_w)
 
-            if len(mean_target_binned) + 1 == feature.n_bins:
-                mean_target_binned = np.append(mean_target_binned, 1.0)
-            if len(mean_prediction_binned) + 1 == feature.n_bins:
-                mean_prediction_binned = np.append(mean_prediction_binned, 1.0)
-
             if isinstance(self, IdentityLinkMixin):
                 feature.mean_dev = mean_prediction_binned - mean_target_binned
                 feature.y = mean_target_binned - mean_y_finite
-- 
2.43.0


From b8bdccae31298277c55f5331e609101d9789c9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:46 +0000
Subject: [PATCH 44/52] fix: keep multiplicative estimates positive before
 taking their logarithm

A loss that is flat below zero, like a clipped log loss, lets the minimiser
end at a negative parameter. Its logarithm is not a number, which made the
smoother drop the effects of all other bins of the feature as well.
---
 cyclic_boosting/generic_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index 93e7fa3..b985939 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -92,7 +92,7 @@ class CBGenericLoss(CyclicBoostingBase):
         neutral_factor = self.unlink_func(np.array(self.neutral_factor_link))
         if neutral_factor != 0:
             epsilon = 1e-5
-            parameters = np.where(np.abs(parameters) < epsilon, epsilon, parameters)
+            parameters = np.where(parameters < epsilon, epsilon, parameters)
             parameters = np.log(parameters)
         parameters[empty_bins] = self.neutral_factor_link
 
-- 
2.43.0


From ba9f08b8477b04ec4e52a599669875104f67af88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:46 +0000
Subject: [PATCH 45/52] fix: keep the variance of a bin without weight finite
 in additive models

A bin holding only rows of weight zero got an undefined estimate, and with it
the smoother dropped the effects of all other bins of the feature.
---
 cyclic_boosting/location.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/location.py b/cyclic_boosting/location.py
index 15e2ad8..34c5663 100644
--- a/cyclic_boosting/location.py
+++ b/cyclic_boosting/location.py
@@ -115,7 +115,7 @@ def precalc_variance_y(feature, y, weights, n_prior=1):
 
     sum_y = np.bincount(lex_binnumbers, weights=weights * y, minlength=minlength)
     sum_weights = np.bincount(lex_binnumbers, weights=weights, minlength=minlength)
-    mean_y = sum_y[lex_binnumbers] / sum_weights[lex_binnumbers]
+    mean_y = (sum_y / np.where(sum_weights > 0, sum_weights, 1.0))[lex_binnumbers]
     weighted_squared_residual_sum = np.bincount(
         lex_binnumbers, weights=weights * (y - mean_y) ** 2, minlength=minlength
     )
-- 
2.43.0


From 1794e1a60ad054a470f2f0ab74dd9d47d872033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:46 +0000
Subject: [PATCH 46/52] fix: do not centre the summands of a feature whose bins
 have no weight

The weighted mean of such bins is undefined, so rows in them were predicted as
not a number.
---
 cyclic_boosting/location.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/location.py b/cyclic_boosting/location.py
index 34c5663..8d10995 100644
--- a/cyclic_boosting/location.py
+++ b/cyclic_boosting/location.py
@@ -217,9 +217,12 @@ class CBLocationRegressor(sklearn.base.RegressorMixin, CyclicBoostingBase, Ident
 
     def calibrate_to_weighted_mean(self, feature):
         if feature.missing_not_learned:
+            weightsum = feature.bin_weightsums[:-1].sum()
+            if weightsum == 0:
+                return feature.factors_link
             calibrated_factors_link = (
                 feature.factors_link[:-1]
-                - (feature.factors_link[:-1] * feature.bin_weightsums[:-1]).sum() / feature.bin_weightsums[:-1].sum()
+                - (feature.factors_link[:-1] * feature.bin_weightsums[:-1]).sum() / weightsum
             )
             calibrated_factors_link = np.append(calibrated_factors_link, self.neutral_factor_link)
         else:
-- 
2.43.0


From 17bb2f0e71366a3c0df1bb592197f53fe37d6ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:46 +0000
Subject: [PATCH 47/52] fix: keep summands finite for a constant target in
 CBLocPoissonRegressor

The prior variance was zero, which made every estimate not a number and broke
the analysis plots.
---
 cyclic_boosting/location.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclic_boosting/location.py b/cyclic_boosting/location.py
index 8d10995..a9a30d7 100644
--- a/cyclic_boosting/location.py
+++ b/cyclic_boosting/location.py
@@ -24,6 +24,8 @@ class CBLocPoissonRegressor(CyclicBoostingBase, sklearn.base.RegressorMixin, Ide
         weights = self.weights
 
         global_std = weighted_stddev(y, weights)
+        if global_std <= 1e-9:  # No variation in y
+            global_std = 1.0
         y_sum = np.bincount(lex_binnumbers, weights=y * weights, minlength=minlength)
         bincount = np.bincount(lex_binnumbers, weights=weights, minlength=minlength)
         return y_sum, bincount, global_std
-- 
2.43.0


From 47c4dd103a5170a2e6a506a0e4e8d21616bce535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:46 +0000
Subject: [PATCH 48/52] fix: keep the uncertainty of a bin without weight
 finite in additive generic models

A bin holding only rows of weight zero got an undefined uncertainty, and with
it the smoother dropped the effects of all other bins of the feature.
---
 cyclic_boosting/generic_loss.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index b985939..11f15ab 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -548,6 +548,7 @@ def uncertainty_gamma(y: np.ndarray, weights: np.ndarray) -> float:
 
 
 def uncertainty_gaussian(y: np.ndarray, weights: np.ndarray) -> float:
+    y, weights = y[weights > 0], weights[weights > 0]
     sum_weights = np.sum(weights)
     weighted_mean_y = np.sum(y * weights) / sum_weights
     weighted_squared_residual_sum = np.sum(weights * (y - weighted_mean_y) ** 2)
-- 
2.43.0


From 2619e7e2fa329826de663a318e7ed31863e5d313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:34:51 +0000
Subject: [PATCH 49/52] fix: report the mean column as required by the
 dispersion model

---
 cyclic_boosting/nbinom.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index 2a204ac..43cf270 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -98,6 +98,11 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
         self.bayes = bayes
         self.n_steps = n_steps
 
+    def required_columns(self):
+        required_columns = CyclicBoostingBase.required_columns(self)
+        required_columns.add(self.mean_prediction_column)
+        return required_columns
+
     def _check_y(self, y):
         """Check that y has no negative values."""
         if not ((y >= 0.0) & (y < np.inf)).all():
-- 
2.43.0


From f9876d5a32762e901a47c5214d3286ca6c303731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:39:34 +0000
Subject: [PATCH 50/52] fix: keep one contribution and importance per group
 when names of groups coincide

---
 cyclic_boosting/base.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 36f67cf..c4c2476 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -139,6 +139,15 @@ def _factors_deviation(features: FeatureList) -> float:
     return np.mean(mean_factor_devs)
 
 
+def _unused_name(name: str, used: Dict[str, Any]) -> str:
+    """Name for a feature group that is not in use by another group yet"""
+    unused, i = name, 1
+    while unused in used:
+        i += 1
+        unused = "{}_{}".format(name, i)
+    return unused
+
+
 @six.add_metaclass(abc.ABCMeta)
 class CyclicBoostingBase(
     link.LinkFunction,
@@ -994,13 +1003,13 @@ class CyclicBoostingBase(
             raise ValueError("_fit_main has to be called first to compute the feature importance.")
         else:
             normalized_values = get_normalized_values(self.feature_importances.values())
-            norm_feature_importances = {
-                "_".join(
+            norm_feature_importances = {}
+            for i, feature in enumerate(self.feature_importances.keys()):
+                name = "_".join(
                     list(map(str, feature.feature_id.feature_group))
                     + ([] if feature.feature_type is None else [str(feature.feature_type)])
-                ): normalized_values[i]
-                for i, feature in enumerate(self.feature_importances.keys())
-            }
+                )
+                norm_feature_importances[_unused_name(name, norm_feature_importances)] = normalized_values[i]
             return norm_feature_importances
 
     def get_feature_contributions(self, X: Union[pd.DataFrame, np.ndarray]) -> Dict[str, np.ndarray]:
@@ -1027,7 +1036,8 @@ class CyclicBoostingBase(
         for feature in self.features:
             ft = "" if feature.feature_type is None else "_{}".format(feature.feature_type)
             fg = " ".join(map(str, feature.feature_group))
-            contribution[fg + ft] = self.unlink_func(self._pred_feature(X, feature, is_fit=False))
+            name = _unused_name(fg + ft, contribution)
+            contribution[name] = self.unlink_func(self._pred_feature(X, feature, is_fit=False))
         return contribution
 
     @abc.abstractmethod
-- 
2.43.0


From c920c513f18c21fe5d49670bcde6f587cc00dd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:54:58 +0000
Subject: [PATCH 51/52] fix: honour hierarchical feature groups set after
 construction

---
 cyclic_boosting/base.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index c4c2476..94112f9 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -303,11 +303,6 @@ class CyclicBoostingBase(
         self.feature_properties = feature_properties
 
         self.features = None
-        self.hierarchical_features = []
-        if self.hierarchical_feature_groups is not None:
-            for fg in self.hierarchical_feature_groups:
-                hierarchical_feature = create_feature_id(fg)
-                self.hierarchical_features.append(hierarchical_feature.feature_group)
         self.training_iterations_hierarchical_features = training_iterations_hierarchical_features
         self.feature_importances = {}
         self.aggregate = aggregate
@@ -354,7 +349,16 @@ class CyclicBoostingBase(
         """
         return self.unlink_func(self.global_scale_link_)
 
+    @property
+    def hierarchical_features(self) -> List:
+        """
+        Feature groups that are trained alone in the first iterations.
+        """
+        return [create_feature_id(fg).feature_group for fg in self.hierarchical_feature_groups or []]
+
     def learning_rate(self, feature: Feature) -> float:
+        if self.hierarchical_feature_groups is not None:
+            return learning_rate.constant_learn_rate_one(self.iteration_ + 1, self.maximal_iterations, feature)
         lr = self.learn_rate(self.iteration_ + 1, self.maximal_iterations, feature)
         return lr
 
-- 
2.43.0


From c79f799bf3d351e22a5779d0519700aba8d1033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:55:13 +0000
Subject: [PATCH 52/52] fix: honour feature groups of the price model set after
 construction

---
 cyclic_boosting/price.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cyclic_boosting/price.py b/cyclic_boosting/price.py
index f14aad7..8bca4e8 100644
--- a/cyclic_boosting/price.py
+++ b/cyclic_boosting/price.py
@@ -266,6 +266,12 @@ class CBExponential(CBNBinomRegressor):
         self.epsilon_jacobian = 0.01
         self.starting_bound_bisect = 2
 
+    def _init_features(self, X=None):
+        self.feature_groups = combine_lists_of_feature_groups(
+            self.standard_feature_groups, self.external_feature_groups
+        )
+        CBNBinomRegressor._init_features(self, X)
+
     def required_columns(self):
         required_columns = CBNBinomRegressor.required_columns(self)
         required_columns.add(self.external_colname)
-- 
2.43.0

