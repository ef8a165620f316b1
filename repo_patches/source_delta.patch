From 5e4ceeef950ffb313dafc17ddc2154ccfc118201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 01/48] fix: use int instead of the removed np.int alias in
 Normalize

np.int was removed in numpy 1.24: normalized Integer and Categorical
dimensions could not be transformed or sampled at all.
---
 skopt/space/transformers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index 6889295..f2dfb16 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -259,7 +259,7 @@ class Normalize(Transformer):
         if (self.high - self.low) == 0.:
             return X * 0.
         if self.is_int:
-            return (np.round(X).astype(np.int) - self.low) /\
+            return (np.round(X).astype(int) - self.low) /\
                    (self.high - self.low)
         else:
             return (X - self.low) / (self.high - self.low)
@@ -272,7 +272,7 @@ class Normalize(Transformer):
             raise ValueError("All values should be greater than 0.0")
         X_orig = X * (self.high - self.low) + self.low
         if self.is_int:
-            return np.round(X_orig).astype(np.int)
+            return np.round(X_orig).astype(int)
         return X_orig
 
 
-- 
2.43.0


From ee1f8b1a3b63ac1f34ba59f1b8d9a6bf5ed8c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 02/48] fix: default forest criterion and max_features for
 scikit-learn >= 1.2

criterion='mse' and max_features='auto' were removed from scikit-learn, so
the forest surrogates could not be fit with their default arguments.
---
 skopt/learning/forest.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/skopt/learning/forest.py b/skopt/learning/forest.py
index 096770c..d69fa60 100644
--- a/skopt/learning/forest.py
+++ b/skopt/learning/forest.py
@@ -1,7 +1,15 @@
 import numpy as np
+import sklearn
 from sklearn.ensemble import RandomForestRegressor as _sk_RandomForestRegressor
 from sklearn.ensemble import ExtraTreesRegressor as _sk_ExtraTreesRegressor
 
+# scikit-learn 1.0 renamed the "mse" criterion to "squared_error" (the old
+# name is gone since 1.2)
+if int(sklearn.__version__.split(".")[0]) >= 1:
+    _MSE = "squared_error"
+else:
+    _MSE = "mse"
+
 
 def _return_std(X, trees, predictions, min_variance):
     """
@@ -194,9 +202,9 @@ class RandomForestRegressor(_sk_RandomForestRegressor):
     .. [1] L. Breiman, "Random Forests", Machine Learning, 45(1), 5-32, 2001.
 
     """
-    def __init__(self, n_estimators=10, criterion='mse', max_depth=None,
+    def __init__(self, n_estimators=10, criterion=_MSE, max_depth=None,
                  min_samples_split=2, min_samples_leaf=1,
-                 min_weight_fraction_leaf=0.0, max_features='auto',
+                 min_weight_fraction_leaf=0.0, max_features=1.0,
                  max_leaf_nodes=None, min_impurity_decrease=0.,
                  bootstrap=True, oob_score=False,
                  n_jobs=1, random_state=None, verbose=0, warm_start=False,
@@ -239,7 +247,7 @@ class RandomForestRegressor(_sk_RandomForestRegressor):
         mean = super(RandomForestRegressor, self).predict(X)
 
         if return_std:
-            if self.criterion != "mse":
+            if self.criterion not in ("mse", "squared_error"):
                 raise ValueError(
                     "Expected impurity to be 'mse', got %s instead"
                     % self.criterion)
@@ -390,9 +398,9 @@ class ExtraTreesRegressor(_sk_ExtraTreesRegressor):
     .. [1] L. Breiman, "Random Forests", Machine Learning, 45(1), 5-32, 2001.
 
     """
-    def __init__(self, n_estimators=10, criterion='mse', max_depth=None,
+    def __init__(self, n_estimators=10, criterion=_MSE, max_depth=None,
                  min_samples_split=2, min_samples_leaf=1,
-                 min_weight_fraction_leaf=0.0, max_features='auto',
+                 min_weight_fraction_leaf=0.0, max_features=1.0,
                  max_leaf_nodes=None, min_impurity_decrease=0.,
                  bootstrap=False, oob_score=False,
                  n_jobs=1, random_state=None, verbose=0, warm_start=False,
@@ -435,7 +443,7 @@ class ExtraTreesRegressor(_sk_ExtraTreesRegressor):
         mean = super(ExtraTreesRegressor, self).predict(X)
 
         if return_std:
-            if self.criterion != "mse":
+            if self.criterion not in ("mse", "squared_error"):
                 raise ValueError(
                     "Expected impurity to be 'mse', got %s instead"
                     % self.criterion)
-- 
2.43.0


From 3aaef5622bd27110c4d74bd001c533df370fdc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 03/48] fix: transformed_bounds of log-uniform dimensions
 follow the transform

Real ignored the log base and Integer returned the untransformed bounds, so
proposals were clipped to the wrong part of the warped space.
---
 skopt/space/space.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 329b0c1..714f6c3 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -371,7 +371,8 @@ class Real(Dimension):
             if self.prior == "uniform":
                 return self.low, self.high
             else:
-                return np.log10(self.low), np.log10(self.high)
+                return (np.log10(self.low) / self.log_base,
+                        np.log10(self.high) / self.log_base)
 
     def distance(self, a, b):
         """Compute distance between point `a` and `b`.
@@ -555,7 +556,11 @@ class Integer(Dimension):
         if self.transform_ == "normalize":
             return 0., 1.
         else:
-            return (self.low, self.high)
+            if self.prior == "uniform":
+                return (self.low, self.high)
+            else:
+                return (np.log10(self.low) / self.log_base,
+                        np.log10(self.high) / self.log_base)
 
     def distance(self, a, b):
         """Compute distance between point `a` and `b`.
-- 
2.43.0


From 4bc8c5693dd78004425ce0fedd0bb9a472da7c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 04/48] fix: transformed_bounds of label-encoded Categorical
 cover all labels

---
 skopt/space/space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 714f6c3..c297926 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -726,7 +726,9 @@ class Categorical(Dimension):
 
     @property
     def transformed_bounds(self):
-        if self.transformed_size == 1:
+        if self.transform_ == "label":
+            return 0.0, float(len(self.categories) - 1)
+        elif self.transformed_size == 1:
             return 0.0, 1.0
         else:
             return [(0.0, 1.0) for i in range(self.transformed_size)]
-- 
2.43.0


From bb7479ae03d5cd9b5417b103f32e793d374796ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 05/48] fix: Optimizer.tell rejects a batch whose x and y
 differ in length

---
 skopt/optimizer/optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 240ffbf..df30a59 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -617,6 +617,11 @@ class Optimizer(object):
     def _check_y_is_valid(self, x, y):
         """Check if the shape and types of x and y are consistent."""
 
+        if (is_2Dlistlike(x) and is_listlike(y) and
+                len(x) != len(y)):
+            raise ValueError("`x` and `y` should have the same length, got "
+                             "%d points and %d values" % (len(x), len(y)))
+
         if "ps" in self.acq_func:
             if is_2Dlistlike(x):
                 if not (np.ndim(y) == 2 and np.shape(y)[1] == 2):
-- 
2.43.0


From ee6ee3b0d515100ba2dfe5a1c0362943fc97660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 06/48] fix: dummy optimizer falls back to random points after
 the initial samples

Asking for more points than the initial point generator produced raised
IndexError.
---
 skopt/optimizer/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index df30a59..f7638b4 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -430,7 +430,7 @@ class Optimizer(object):
         if self._n_initial_points > 0 or self.base_estimator_ is None:
             # this will not make a copy of `self.rng` and hence keep advancing
             # our random state.
-            if self._initial_samples is None:
+            if self._initial_samples is None or self._n_initial_points <= 0:
                 return self.space.rvs(random_state=self.rng)[0]
             else:
                 # The samples are evaluated starting form initial_samples[0]
-- 
2.43.0


From 6f4ec2269481370aaf7e333ba2c5ce1c2d1b72e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 07/48] fix: Optimizer.copy keeps the model queue size

---
 skopt/optimizer/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index f7638b4..31ae6cc 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -322,6 +322,7 @@ class Optimizer(object):
             acq_optimizer=self.acq_optimizer,
             acq_func_kwargs=self.acq_func_kwargs,
             acq_optimizer_kwargs=self.acq_optimizer_kwargs,
+            model_queue_size=self.max_model_queue_size,
             random_state=random_state
         )
         optimizer._initial_samples = self._initial_samples
-- 
2.43.0


From 25d3dd6e217fdf576344441ba6c1ad7c709cfe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 08/48] fix: keep computation times out of the best value of
 per-second acquisitions

The incumbent and the constant lies were computed over objective values and
log times together.
---
 skopt/optimizer/optimizer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 31ae6cc..6daf8cd 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -398,15 +398,16 @@ class Optimizer(object):
 
             ti_available = "ps" in self.acq_func and len(opt.yi) > 0
             ti = [t for (_, t) in opt.yi] if ti_available else None
+            yi = [v for (v, _) in opt.yi] if ti_available else opt.yi
 
             if strategy == "cl_min":
-                y_lie = np.min(opt.yi) if opt.yi else 0.0  # CL-min lie
+                y_lie = np.min(yi) if yi else 0.0  # CL-min lie
                 t_lie = np.min(ti) if ti is not None else log(sys.float_info.max)
             elif strategy == "cl_mean":
-                y_lie = np.mean(opt.yi) if opt.yi else 0.0  # CL-mean lie
+                y_lie = np.mean(yi) if yi else 0.0  # CL-mean lie
                 t_lie = np.mean(ti) if ti is not None else log(sys.float_info.max)
             else:
-                y_lie = np.max(opt.yi) if opt.yi else 0.0  # CL-max lie
+                y_lie = np.max(yi) if yi else 0.0  # CL-max lie
                 t_lie = np.max(ti) if ti is not None else log(sys.float_info.max)
 
             # Lie to the optimizer.
@@ -530,6 +531,9 @@ class Optimizer(object):
         if (fit and self._n_initial_points <= 0 and
                 self.base_estimator_ is not None):
             transformed_bounds = np.array(self.space.transformed_bounds)
+            # the second column holds the log of the computation times
+            y_opt = (np.min([y[0] for y in self.yi])
+                     if "ps" in self.acq_func else np.min(self.yi))
             est = clone(self.base_estimator_)
 
             with warnings.catch_warnings():
@@ -556,7 +560,7 @@ class Optimizer(object):
             self.next_xs_ = []
             for cand_acq_func in self.cand_acq_funcs_:
                 values = _gaussian_acquisition(
-                    X=X, model=est, y_opt=np.min(self.yi),
+                    X=X, model=est, y_opt=y_opt,
                     acq_func=cand_acq_func,
                     acq_func_kwargs=self.acq_func_kwargs)
                 # Find the minimum of the acquisition function by randomly
@@ -575,7 +579,7 @@ class Optimizer(object):
                         results = Parallel(n_jobs=self.n_jobs)(
                             delayed(fmin_l_bfgs_b)(
                                 gaussian_acquisition_1D, x,
-                                args=(est, np.min(self.yi), cand_acq_func,
+                                args=(est, y_opt, cand_acq_func,
                                       self.acq_func_kwargs),
                                 bounds=self.space.transformed_bounds,
                                 approx_grad=False,
-- 
2.43.0


From b4acca95268050c4f603446c98cdc7db6ae24b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 09/48] fix: has_gradients looks inside a MultiOutputRegressor

Optimizer with a tree surrogate and a per-second acquisition chose lbfgs and
failed on the first model based step.
---
 skopt/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skopt/utils.py b/skopt/utils.py
index a27e62c..6ebb23e 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -6,6 +6,7 @@ from scipy.optimize import OptimizeResult
 from scipy.optimize import minimize as sp_minimize
 from sklearn.base import is_regressor
 from sklearn.ensemble import GradientBoostingRegressor
+from sklearn.multioutput import MultiOutputRegressor
 from joblib import dump as dump_
 from joblib import load as load_
 from collections import OrderedDict
@@ -312,6 +313,10 @@ def has_gradients(estimator):
             GradientBoostingQuantileRegressor
     )
 
+    # per-second acquisition functions wrap the surrogate
+    if isinstance(estimator, MultiOutputRegressor):
+        estimator = estimator.estimator
+
     # cook_estimator() returns None for "dummy minimize" aka random values only
     if estimator is None:
         return False
-- 
2.43.0


From 2023f3ad0117b17f1e842b01e967f08bd497da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 10/48] fix: normalize_dimensions leaves the caller's
 dimensions alone

The transformer of the passed Dimension objects was switched in place, which
changed the warped space of every other optimizer built from them. The GP of
a per-second acquisition gets the normalized space explicitly instead.
---
 skopt/optimizer/optimizer.py | 5 ++++-
 skopt/utils.py               | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 6daf8cd..0867955 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -266,7 +266,10 @@ class Optimizer(object):
         # Configure search space
 
         # normalize space if GP regressor
-        if isinstance(self.base_estimator_, GaussianProcessRegressor):
+        surrogate = self.base_estimator_
+        if isinstance(surrogate, MultiOutputRegressor):
+            surrogate = surrogate.estimator
+        if isinstance(surrogate, GaussianProcessRegressor):
             dimensions = normalize_dimensions(dimensions)
         self.space = Space(dimensions)
 
diff --git a/skopt/utils.py b/skopt/utils.py
index 6ebb23e..19d88f3 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -1,3 +1,4 @@
+from copy import copy
 from copy import deepcopy
 from functools import wraps
 from sklearn.utils import check_random_state
@@ -599,8 +600,9 @@ def normalize_dimensions(dimensions):
     for dimension in space.dimensions:
         # check if dimension is of a Dimension instance
         if isinstance(dimension, Dimension):
-            # Change the transformer to normalize
+            # Change the transformer of a copy to normalize
             # and add it to the new transformed dimensions
+            dimension = copy(dimension)
             dimension.set_transformer("normalize")
             transformed_dimensions.append(
                 dimension
-- 
2.43.0


From 1ee7d80b6d4aec4d821da425a33b4e6724137611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 11/48] fix: comparing spaces and points takes every dimension
 into account

---
 skopt/space/space.py |  9 +++++++--
 skopt/utils.py       | 12 ++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index c297926..eca7b2e 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -514,7 +514,8 @@ class Integer(Dimension):
     def __eq__(self, other):
         return (type(self) is type(other) and
                 np.allclose([self.low], [other.low]) and
-                np.allclose([self.high], [other.high]))
+                np.allclose([self.high], [other.high]) and
+                self.prior == other.prior)
 
     def __repr__(self):
         return "Integer(low={}, high={}, prior='{}', transform='{}')".format(
@@ -778,7 +779,9 @@ class Space(object):
         self.dimensions = [check_dimension(dim) for dim in dimensions]
 
     def __eq__(self, other):
-        return all([a == b for a, b in zip(self.dimensions, other.dimensions)])
+        return (len(self.dimensions) == len(other.dimensions) and
+                all([a == b for a, b in zip(self.dimensions,
+                                            other.dimensions)]))
 
     def __repr__(self):
         if len(self.dimensions) > 31:
@@ -1038,6 +1041,8 @@ class Space(object):
 
     def __contains__(self, point):
         """Check that `point` is within the bounds of the space."""
+        if len(point) != len(self.dimensions):
+            return False
         for component, dim in zip(point, self.dimensions):
             if component not in dim:
                 return False
diff --git a/skopt/utils.py b/skopt/utils.py
index 19d88f3..1e2c74f 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -186,20 +186,20 @@ def is_2Dlistlike(x):
 
 def check_x_in_space(x, space):
     if is_2Dlistlike(x):
-        if not np.all([p in space for p in x]):
-            raise ValueError("Not all points are within the bounds of"
-                             " the space.")
         if any([len(p) != len(space.dimensions) for p in x]):
             raise ValueError("Not all points have the same dimensions as"
                              " the space.")
+        if not np.all([p in space for p in x]):
+            raise ValueError("Not all points are within the bounds of"
+                             " the space.")
     elif is_listlike(x):
+        if len(x) != len(space.dimensions):
+            raise ValueError("Dimensions of point (%s) and space (%s) do not match"
+                             % (x, space.bounds))
         if x not in space:
             raise ValueError("Point (%s) is not within the bounds of"
                              " the space (%s)."
                              % (x, space.bounds))
-        if len(x) != len(space.dimensions):
-            raise ValueError("Dimensions of point (%s) and space (%s) do not match"
-                             % (x, space.bounds))
 
 
 def expected_minimum(res, n_random_starts=20, random_state=None):
-- 
2.43.0


From 410e0cee528f204fdf68812431466c66d79e2100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 12/48] fix: dump(store_objective=False) does not copy the
 objective

An objective which can not be pickled usually can not be deep copied either.
---
 skopt/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index 1e2c74f..d644fc0 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -140,7 +140,9 @@ def dump(res, filename, store_objective=True, **kwargs):
         # If the user does not want to store the objective and it is indeed
         # present in the provided object, then create a deep copy of it and
         # remove the objective function before dumping it with joblib.dump.
-        res_without_func = deepcopy(res)
+        # The objective itself may not support copying, leave it out.
+        func = res.specs['args']['func']
+        res_without_func = deepcopy(res, {id(func): None})
         del res_without_func.specs['args']['func']
         dump_(res_without_func, filename, **kwargs)
 
-- 
2.43.0


From 37c0eb7fcdb180f430309917d62a181af5efd28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 13/48] fix: total_iterations of BayesSearchCV with a single
 search space

A plain dict was counted once per parameter.
---
 skopt/searchcv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 391b14c..99e1182 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -423,7 +423,11 @@ class BayesSearchCV(BaseSearchCV):
         """
         total_iter = 0
 
-        for elem in self.search_spaces:
+        search_spaces = self.search_spaces
+        if isinstance(search_spaces, dict):
+            search_spaces = [search_spaces]
+
+        for elem in search_spaces:
 
             if isinstance(elem, tuple):
                 space, n_iter = elem
-- 
2.43.0


From 4ec01d212dbd18768ad211b5b7bbd83f1c46f48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 14/48] fix: BayesSearchCV rejects a search space without
 iterations

Zero was accepted although a positive number is required, and then failed or
repeated the results of the previous search space.
---
 skopt/searchcv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 99e1182..a0c0dab 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -335,7 +335,7 @@ class BayesSearchCV(BaseSearchCV):
                         )
                     subspace, n_iter = elem
 
-                    if (not isinstance(n_iter, int)) or n_iter < 0:
+                    if (not isinstance(n_iter, int)) or n_iter <= 0:
                         raise ValueError(
                             "Number of iterations in search space should be"
                             "positive integer, got %s in tuple %s " %
-- 
2.43.0


From f147e461b3594ec4f24c440b3396d58798945960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 15/48] fix: results keep the observations they were created
 from

x_iters and models were the live lists of the optimizer and grew while
func_vals did not.
---
 skopt/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index d644fc0..2aa3bda 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -66,8 +66,8 @@ def create_result(Xi, yi, space=None, rng=None, specs=None, models=None):
     res.x = Xi[best]
     res.fun = yi[best]
     res.func_vals = yi
-    res.x_iters = Xi
-    res.models = models
+    res.x_iters = list(Xi)
+    res.models = models if models is None else list(models)
     res.space = space
     res.random_state = rng
     res.specs = specs
-- 
2.43.0


From f7d09069319965cbcdea4a7748e6ba5d454f0063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 16/48] fix: fitting a GaussianProcessRegressor again does not
 add more noise terms

---
 skopt/learning/gaussian_process/gpr.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skopt/learning/gaussian_process/gpr.py b/skopt/learning/gaussian_process/gpr.py
index 34902d7..417ba00 100644
--- a/skopt/learning/gaussian_process/gpr.py
+++ b/skopt/learning/gaussian_process/gpr.py
@@ -186,13 +186,19 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
         if self.kernel is None:
             self.kernel = ConstantKernel(1.0, constant_value_bounds="fixed") \
                           * RBF(1.0, length_scale_bounds="fixed")
+        # The noise component is only added for this fit, such that fitting
+        # again starts from the same kernel.
+        kernel = self.kernel
         if self.noise == "gaussian":
-            self.kernel = self.kernel + WhiteKernel()
+            self.kernel = kernel + WhiteKernel()
         elif self.noise:
-            self.kernel = self.kernel + WhiteKernel(
+            self.kernel = kernel + WhiteKernel(
                 noise_level=self.noise, noise_level_bounds="fixed"
             )
-        super(GaussianProcessRegressor, self).fit(X, y)
+        try:
+            super(GaussianProcessRegressor, self).fit(X, y)
+        finally:
+            self.kernel = kernel
 
         self.noise_ = None
 
-- 
2.43.0


From f6313fac986071e1b78e347f1d5d1008c4dd15a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 17/48] fix: dummy_minimize counts a single initial point as
 one call

The number of dimensions of the point was subtracted from the budget of
initial points, which failed for more dimensions than calls.
---
 skopt/optimizer/dummy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skopt/optimizer/dummy.py b/skopt/optimizer/dummy.py
index c372c24..c54c248 100644
--- a/skopt/optimizer/dummy.py
+++ b/skopt/optimizer/dummy.py
@@ -105,7 +105,9 @@ def dummy_minimize(func, dimensions, n_calls=100,
     # all our calls want random suggestions, except if we need to evaluate
     # some initial points
     if x0 is not None and y0 is None:
-        n_initial_points = n_calls - len(x0)
+        # `x0` may also be a single point
+        n_x0 = len(x0) if isinstance(x0[0], (list, tuple)) else 1
+        n_initial_points = n_calls - n_x0
     else:
         n_initial_points = n_calls
 
-- 
2.43.0


From 354653fd6476ede7aafc6b7d0dceb71bb028a4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 18/48] fix: Categorical gives back the categories it was given

Categories of mixed types came back as strings, booleans encoded as strings
always came back as True, and label encoding mixed types raised KeyError.
---
 skopt/space/space.py        |  6 +++++-
 skopt/space/transformers.py | 13 +++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index eca7b2e..e4a286e 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -690,7 +690,11 @@ class Categorical(Dimension):
         # of type float, hence the required cast back to int.
         inv_transform = super(Categorical, self).inverse_transform(Xt)
         if isinstance(inv_transform, list):
-            inv_transform = np.array(inv_transform)
+            # np.array(list) would cast categories of mixed types to strings
+            values = np.empty(len(inv_transform), dtype=object)
+            for i, value in enumerate(inv_transform):
+                values[i] = value
+            inv_transform = values
         return inv_transform
 
     def rvs(self, n_samples=None, random_state=None):
diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index f2dfb16..3be3891 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -49,6 +49,7 @@ class StringEncoder(Transformer):
         """
         if len(X) > 0:
             self.dtype = type(X[0])
+        self.inverse_mapping_ = {str(x): x for x in X}
 
     def transform(self, X):
         """Transform an array of categories to a string encoded representation.
@@ -79,7 +80,8 @@ class StringEncoder(Transformer):
         X : array-like, shape=(n_samples,)
             The original categories.
         """
-        return [self.dtype(x) for x in Xt]
+        mapping = getattr(self, "inverse_mapping_", {})
+        return [mapping[x] if x in mapping else self.dtype(x) for x in Xt]
 
 
 class LogN(Transformer):
@@ -166,9 +168,13 @@ class LabelEncoder(Transformer):
         X : array-like, shape=(n_categories,)
             List of categories.
         """
+        categories = list(X)
         X = np.asarray(X)
-        if X.dtype == object:
-            self.mapping_ = {v: i for i, v in enumerate(X)}
+        if X.dtype == object or X.ndim > 1 or \
+                (X.dtype.kind == "U" and
+                 not all(isinstance(v, str) for v in categories)):
+            # no common type, keep the categories as they are
+            self.mapping_ = {v: i for i, v in enumerate(categories)}
         else:
             i = 0
             self.mapping_ = {}
@@ -192,7 +198,6 @@ class LabelEncoder(Transformer):
         Xt : array-like, shape=(n_samples, n_categories)
             The integer categories.
         """
-        X = np.asarray(X)
         return [self.mapping_[v] for v in X]
 
     def inverse_transform(self, Xt):
-- 
2.43.0


From f5ae67fbf545dc79f79fb0fff0f8b8ffe601781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 19/48] fix: Halton accepts one sided skips and more bases than
 dimensions

---
 skopt/sampler/halton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/sampler/halton.py b/skopt/sampler/halton.py
index 7a3eeb8..c123a43 100644
--- a/skopt/sampler/halton.py
+++ b/skopt/sampler/halton.py
@@ -82,7 +82,7 @@ class Halton(InitialPointGenerator):
                 primes = _create_primes(prime_order)
                 prime_order *= 2
 
-            primes = primes[:n_dim]
+        primes = primes[:n_dim]
         assert len(primes) == n_dim, "not enough primes"
 
         if self.min_skip == self.max_skip:
@@ -90,7 +90,7 @@ class Halton(InitialPointGenerator):
         elif self.min_skip < 0 and self.max_skip < 0:
             skip = max(primes)
         elif self.min_skip < 0 or self.max_skip < 0:
-            skip = np.max(self.min_skip, self.max_skip)
+            skip = max(self.min_skip, self.max_skip)
         else:
             skip = rng.randint(self.min_skip, self.max_skip)
 
-- 
2.43.0


From ecd5300be85aa7e605116b040feec1c32a1d4b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 20/48] fix: Optimizer.copy does not generate the initial
 samples again

A Sobol generator with skipped points refuses to generate them a second time,
which made asking for several points fail.
---
 skopt/optimizer/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 0867955..de7bf42 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -320,7 +320,6 @@ class Optimizer(object):
             dimensions=self.space.dimensions,
             base_estimator=self.base_estimator_,
             n_initial_points=self.n_initial_points_,
-            initial_point_generator=self._initial_point_generator,
             acq_func=self.acq_func,
             acq_optimizer=self.acq_optimizer,
             acq_func_kwargs=self.acq_func_kwargs,
@@ -328,6 +327,8 @@ class Optimizer(object):
             model_queue_size=self.max_model_queue_size,
             random_state=random_state
         )
+        # the initial samples are shared, there is no need to generate them
+        optimizer._initial_point_generator = self._initial_point_generator
         optimizer._initial_samples = self._initial_samples
         if hasattr(self, "gains_"):
             optimizer.gains_ = np.copy(self.gains_)
-- 
2.43.0


From 619f88dab768ff2aee0016f8da155ac34664cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 21/48] fix: Grid(border="only") selects points at the border

---
 skopt/sampler/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/sampler/grid.py b/skopt/sampler/grid.py
index 2e90d7a..e5ee9c7 100644
--- a/skopt/sampler/grid.py
+++ b/skopt/sampler/grid.py
@@ -137,7 +137,7 @@ class Grid(InitialPointGenerator):
                 order = int(np.ceil(n_samples / 2.))
             if order < 2:
                 order = 2
-            h = _create_uniform_grid_exclude_border(n_dim, order)
+            h = _create_uniform_grid_only_border(n_dim, order)
         else:
             raise ValueError("Wrong value for border")
         if np.size(h, 0) > n_samples:
-- 
2.43.0


From 35f6d6eb401b13a3905b31de557982125408d0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 22/48] fix: Grid generates all requested samples in one
 dimension

The square root of the number of samples is not enough levels for a single
dimension, an optimizer ran out of initial points with IndexError.
---
 skopt/sampler/grid.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/skopt/sampler/grid.py b/skopt/sampler/grid.py
index e5ee9c7..384b361 100644
--- a/skopt/sampler/grid.py
+++ b/skopt/sampler/grid.py
@@ -25,6 +25,16 @@ def _quadrature_combine(args):
     return out
 
 
+def _n_levels(n_samples, n_dim):
+    """Levels per dimension, a single dimension needs one for every sample."""
+    return n_samples if n_dim == 1 else np.sqrt(n_samples)
+
+
+def _n_border_levels(n_samples, n_dim):
+    """Levels of the last dimension of a grid which covers the border."""
+    return n_samples if n_dim == 1 else n_samples / 2.
+
+
 def _create_uniform_grid_exclude_border(n_dim, order):
     assert order > 0
     assert n_dim > 0
@@ -116,25 +126,25 @@ class Grid(InitialPointGenerator):
 
         if self.border == "include":
             if self.use_full_layout:
-                order = int(np.floor(np.sqrt(n_samples)))
+                order = int(np.floor(_n_levels(n_samples, n_dim)))
             else:
-                order = int(np.ceil(np.sqrt(n_samples)))
+                order = int(np.ceil(_n_levels(n_samples, n_dim)))
             if order < 2:
                 order = 2
             h = _create_uniform_grid_include_border(n_dim, order)
         elif self.border == "exclude":
             if self.use_full_layout:
-                order = int(np.floor(np.sqrt(n_samples)))
+                order = int(np.floor(_n_levels(n_samples, n_dim)))
             else:
-                order = int(np.ceil(np.sqrt(n_samples)))
+                order = int(np.ceil(_n_levels(n_samples, n_dim)))
             if order < 1:
                 order = 1
             h = _create_uniform_grid_exclude_border(n_dim, order)
         elif self.border == "only":
             if self.use_full_layout:
-                order = int(np.floor(n_samples / 2.))
+                order = int(np.floor(_n_border_levels(n_samples, n_dim)))
             else:
-                order = int(np.ceil(n_samples / 2.))
+                order = int(np.ceil(_n_border_levels(n_samples, n_dim)))
             if order < 2:
                 order = 2
             h = _create_uniform_grid_only_border(n_dim, order)
@@ -144,24 +154,25 @@ class Grid(InitialPointGenerator):
             rng.shuffle(h)
             h = h[:n_samples, :]
         elif np.size(h, 0) < n_samples:
+            n_missing = n_samples - np.size(h, 0)
             if self.append_border == "only":
-                order = int(np.ceil((n_samples - np.size(h, 0)) / 2.))
+                order = int(np.ceil(_n_border_levels(n_missing, n_dim)))
                 if order < 2:
                     order = 2
                 h2 = _create_uniform_grid_only_border(n_dim, order)
             elif self.append_border == "include":
-                order = int(np.ceil(np.sqrt(n_samples - np.size(h, 0))))
+                order = int(np.ceil(_n_levels(n_missing, n_dim)))
                 if order < 2:
                     order = 2
                 h2 = _create_uniform_grid_include_border(n_dim, order)
             elif self.append_border == "exclude":
-                order = int(np.ceil(np.sqrt(n_samples - np.size(h, 0))))
+                order = int(np.ceil(_n_levels(n_missing, n_dim)))
                 if order < 1:
                     order = 1
                 h2 = _create_uniform_grid_exclude_border(n_dim, order)
             else:
                 raise ValueError("Wrong value for append_border")
-            h = np.vstack((h, h2[:(n_samples - np.size(h, 0))]))
+            h = np.vstack((h, h2[:n_missing]))
             rng.shuffle(h)
         else:
             rng.shuffle(h)
-- 
2.43.0


From 66dcbae1de6b4dcb25184231887a02acdc0b9924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 23/48] fix: Optimizer.tell rejects a scalar for a batch of
 points

---
 skopt/optimizer/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index de7bf42..2d1f0fe 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -645,6 +645,9 @@ class Optimizer(object):
                 if not isinstance(y_value, Number):
                     raise ValueError("expected y to be a list of scalars")
 
+        elif is_2Dlistlike(x):
+            raise ValueError("expected y to be a list of scalars")
+
         elif is_listlike(x):
             if not isinstance(y, Number):
                 raise ValueError("`func` should return a scalar")
-- 
2.43.0


From 4f08747454193f3ba74496c49613e937fcb9c3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:33 +0000
Subject: [PATCH 24/48] fix: a bounds tuple with one float bound and a prior is
 a Real dimension

---
 skopt/space/space.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index e4a286e..e84f4bb 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -111,7 +111,8 @@ def check_dimension(dimension, transform=None):
                              " supported types.".format(dimension))
 
     if len(dimension) == 3:
-        if (any([isinstance(dim, int) for dim in dimension[:2]]) and
+        if (all([isinstance(dim, numbers.Integral)
+                 for dim in dimension[:2]]) and
                 dimension[2] in ["uniform", "log-uniform"]):
             return Integer(*dimension, transform=transform)
         elif (any([isinstance(dim, (float, int)) for dim in dimension[:2]]) and
@@ -121,7 +122,8 @@ def check_dimension(dimension, transform=None):
             return Categorical(dimension, transform=transform)
 
     if len(dimension) == 4:
-        if (any([isinstance(dim, int) for dim in dimension[:2]]) and
+        if (all([isinstance(dim, numbers.Integral)
+                 for dim in dimension[:2]]) and
                 dimension[2] == "log-uniform" and isinstance(dimension[3],
                                                              int)):
             return Integer(*dimension, transform=transform)
-- 
2.43.0


From e53ac219a8947d95d608b2a9460a3c892514da5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:13 +0000
Subject: [PATCH 25/48] fix: categories of a normalized dimension are sampled
 with their prior

---
 skopt/space/space.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index e84f4bb..9b68566 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -658,13 +658,10 @@ class Categorical(Dimension):
         else:
             self.transformer = Identity()
             self.transformer.fit(self.categories)
-        if transform == "normalize":
-            self._rvs = _uniform_inclusive(0.0, 1.0)
-        else:
-            # XXX check that sum(prior) == 1
-            self._rvs = rv_discrete(
-                values=(range(len(self.categories)), self.prior_)
-            )
+        # XXX check that sum(prior) == 1
+        self._rvs = rv_discrete(
+            values=(range(len(self.categories)), self.prior_)
+        )
 
     def __eq__(self, other):
         return (type(self) is type(other) and
@@ -703,11 +700,9 @@ class Categorical(Dimension):
         choices = self._rvs.rvs(size=n_samples, random_state=random_state)
 
         if isinstance(choices, numbers.Integral):
+            if self.transform_ == "normalize":
+                return [self.categories[choices]]
             return self.categories[choices]
-        elif self.transform_ == "normalize" and isinstance(choices, float):
-            return self.inverse_transform([(choices)])
-        elif self.transform_ == "normalize":
-            return self.inverse_transform(list(choices))
         else:
             return [self.categories[c] for c in choices]
 
-- 
2.43.0


From 46d0c493ea145fca8ba7bb89c06bb3e714dfc981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:34 +0000
Subject: [PATCH 26/48] fix: label encoding accepts sequences of different
 lengths as categories

---
 skopt/space/transformers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index 3be3891..0bd4b03 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -169,7 +169,11 @@ class LabelEncoder(Transformer):
             List of categories.
         """
         categories = list(X)
-        X = np.asarray(X)
+        try:
+            X = np.asarray(categories)
+        except ValueError:
+            # sequences of different lengths
+            X = np.asarray(categories, dtype=object)
         if X.dtype == object or X.ndim > 1 or \
                 (X.dtype.kind == "U" and
                  not all(isinstance(v, str) for v in categories)):
-- 
2.43.0


From 0d71dfd58e0edcb5ba77fcdb366d2b2d5cf0ff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:35 +0000
Subject: [PATCH 27/48] fix: dummy_minimize rejects a budget smaller than the
 number of initial points

---
 skopt/optimizer/dummy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/optimizer/dummy.py b/skopt/optimizer/dummy.py
index c54c248..7c50871 100644
--- a/skopt/optimizer/dummy.py
+++ b/skopt/optimizer/dummy.py
@@ -107,7 +107,8 @@ def dummy_minimize(func, dimensions, n_calls=100,
     if x0 is not None and y0 is None:
         # `x0` may also be a single point
         n_x0 = len(x0) if isinstance(x0[0], (list, tuple)) else 1
-        n_initial_points = n_calls - n_x0
+        # base_minimize rejects a budget too small to evaluate `x0`
+        n_initial_points = max(0, n_calls - n_x0)
     else:
         n_initial_points = n_calls
 
-- 
2.43.0


From f30f99233fbefc941532dbf1c9e543d0be631912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 28/48] fix: verbose searches leave the caller's list of
 callbacks alone

---
 skopt/optimizer/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/optimizer/base.py b/skopt/optimizer/base.py
index 0ded90b..e202f29 100644
--- a/skopt/optimizer/base.py
+++ b/skopt/optimizer/base.py
@@ -266,7 +266,7 @@ def base_minimize(func, dimensions, base_estimator,
         raise RuntimeError("Optimization space (%s) and initial points in x0 "
                            "use inconsistent dimensions." % optimizer.space)
     # check callback
-    callbacks = check_callback(callback)
+    callbacks = list(check_callback(callback))
     if verbose:
         callbacks.append(VerboseCallback(
             n_init=len(x0) if not y0 else 0,
-- 
2.43.0


From ccde1680a6735c3ac442b64c1e0a0a9ea4fa8c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 29/48] fix: points outside of the space are rejected before
 they are evaluated

---
 skopt/optimizer/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skopt/optimizer/base.py b/skopt/optimizer/base.py
index e202f29..169f23e 100644
--- a/skopt/optimizer/base.py
+++ b/skopt/optimizer/base.py
@@ -16,6 +16,7 @@ import numpy as np
 from ..callbacks import check_callback
 from ..callbacks import VerboseCallback
 from .optimizer import Optimizer
+from ..utils import check_x_in_space
 from ..utils import eval_callbacks
 
 
@@ -279,6 +280,7 @@ def base_minimize(func, dimensions, base_estimator,
     result = None
     # evaluate y0 if only x0 is provided
     if x0 and y0 is None:
+        check_x_in_space(x0, optimizer.space)
         y0 = list(map(func, x0))
         n_calls -= len(y0)
     # record through tell function
-- 
2.43.0


From 47c221a766633e7f4b001788e43dc4505ccfee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 30/48] fix: generators that reject their settings leave the
 dimensions alone

---
 skopt/sampler/grid.py      |  2 +-
 skopt/sampler/halton.py    |  2 +-
 skopt/sampler/hammersly.py |  2 +-
 skopt/sampler/lhs.py       | 11 ++++++-----
 skopt/sampler/sobol.py     |  2 +-
 5 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/skopt/sampler/grid.py b/skopt/sampler/grid.py
index 384b361..a2ae457 100644
--- a/skopt/sampler/grid.py
+++ b/skopt/sampler/grid.py
@@ -122,7 +122,6 @@ class Grid(InitialPointGenerator):
         space = Space(dimensions)
         n_dim = space.n_dims
         transformer = space.get_transformer()
-        space.set_transformer("normalize")
 
         if self.border == "include":
             if self.use_full_layout:
@@ -176,6 +175,7 @@ class Grid(InitialPointGenerator):
             rng.shuffle(h)
         else:
             rng.shuffle(h)
+        space.set_transformer("normalize")
         h = space.inverse_transform(h)
         space.set_transformer(transformer)
         return h
diff --git a/skopt/sampler/halton.py b/skopt/sampler/halton.py
index c123a43..548f22c 100644
--- a/skopt/sampler/halton.py
+++ b/skopt/sampler/halton.py
@@ -75,7 +75,6 @@ class Halton(InitialPointGenerator):
         space = Space(dimensions)
         n_dim = space.n_dims
         transformer = space.get_transformer()
-        space.set_transformer("normalize")
         if len(primes) < n_dim:
             prime_order = 10 * n_dim
             while len(primes) < n_dim:
@@ -99,6 +98,7 @@ class Halton(InitialPointGenerator):
         for dim_ in range(n_dim):
             out[dim_] = _van_der_corput_samples(
                 indices, number_base=primes[dim_])
+        space.set_transformer("normalize")
         out = space.inverse_transform(np.transpose(out))
         space.set_transformer(transformer)
         return out
diff --git a/skopt/sampler/hammersly.py b/skopt/sampler/hammersly.py
index 5de6c6e..87878a7 100644
--- a/skopt/sampler/hammersly.py
+++ b/skopt/sampler/hammersly.py
@@ -76,7 +76,6 @@ class Hammersly(InitialPointGenerator):
         space = Space(dimensions)
         n_dim = space.n_dims
         transformer = space.get_transformer()
-        space.set_transformer("normalize")
         if n_dim == 1:
             out = halton.generate(dimensions, n_samples,
                                   random_state=rng)
@@ -87,6 +86,7 @@ class Hammersly(InitialPointGenerator):
                 random_state=rng)).T
 
             out[n_dim - 1] = np.linspace(0, 1, n_samples + 1)[:-1]
+            space.set_transformer("normalize")
             out = space.inverse_transform(out.T)
         space.set_transformer(transformer)
         return out
diff --git a/skopt/sampler/lhs.py b/skopt/sampler/lhs.py
index d63a15b..35a09cd 100644
--- a/skopt/sampler/lhs.py
+++ b/skopt/sampler/lhs.py
@@ -74,6 +74,12 @@ class Lhs(InitialPointGenerator):
         np.array, shape=(n_dim, n_samples)
             LHS set
         """
+        if self.criterion not in (None, "correlation", "maximin", "ratio"):
+            raise ValueError("Wrong criterion."
+                             "Got {}".format(self.criterion))
+        if self.lhs_type not in ("classic", "centered"):
+            raise ValueError("Wrong lhs_type. "
+                             "Got {}".format(self.lhs_type))
         rng = check_random_state(random_state)
         space = Space(dimensions)
         transformer = space.get_transformer()
@@ -123,9 +129,6 @@ class Lhs(InitialPointGenerator):
                         minratio = ratio
                         h_opt = h.copy()
                         h_opt = space.inverse_transform(h_opt)
-            else:
-                raise ValueError("Wrong criterion."
-                                 "Got {}".format(self.criterion))
             space.set_transformer(transformer)
             return h_opt
 
@@ -140,6 +143,4 @@ class Lhs(InitialPointGenerator):
         elif self.lhs_type == "classic":
             for j in range(n_dim):
                 h[:, j] = u[:, j] * np.diff(x) + x[:n_samples]
-        else:
-            raise ValueError("Wrong lhs_type. Got ".format(self.lhs_type))
         return _random_permute_matrix(h, random_state=rng)
diff --git a/skopt/sampler/sobol.py b/skopt/sampler/sobol.py
index a148003..32ff66c 100644
--- a/skopt/sampler/sobol.py
+++ b/skopt/sampler/sobol.py
@@ -258,7 +258,6 @@ class Sobol(InitialPointGenerator):
         space = Space(dimensions)
         n_dim = space.n_dims
         transformer = space.get_transformer()
-        space.set_transformer("normalize")
         r = np.full((n_samples, n_dim), np.nan)
 
         seed = self.skip
@@ -268,6 +267,7 @@ class Sobol(InitialPointGenerator):
         if self.randomize:
             r = _random_shift(r, rng)
 
+        space.set_transformer("normalize")
         r = space.inverse_transform(r)
         space.set_transformer(transformer)
 
-- 
2.43.0


From 4db3bd99e3f9fb63b704998fe6a432f8d03729a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 31/48] fix: grids are full factorial designs in any number of
 dimensions

---
 skopt/sampler/grid.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skopt/sampler/grid.py b/skopt/sampler/grid.py
index a2ae457..9d5c1b6 100644
--- a/skopt/sampler/grid.py
+++ b/skopt/sampler/grid.py
@@ -26,13 +26,15 @@ def _quadrature_combine(args):
 
 
 def _n_levels(n_samples, n_dim):
-    """Levels per dimension, a single dimension needs one for every sample."""
-    return n_samples if n_dim == 1 else np.sqrt(n_samples)
+    """Levels per dimension of a full factorial design with n_samples points."""
+    root = n_samples ** (1. / n_dim)
+    # roots of perfect powers are exact
+    return round(root) if round(root) ** n_dim == n_samples else root
 
 
 def _n_border_levels(n_samples, n_dim):
     """Levels of the last dimension of a grid which covers the border."""
-    return n_samples if n_dim == 1 else n_samples / 2.
+    return n_samples / 2. ** (n_dim - 1)
 
 
 def _create_uniform_grid_exclude_border(n_dim, order):
-- 
2.43.0


From 5217fadcc1d3fe9a2f6f7981db69fdef86316993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 32/48] fix: the correlation criterion considers every design

---
 skopt/sampler/lhs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skopt/sampler/lhs.py b/skopt/sampler/lhs.py
index 35a09cd..8dc8ea0 100644
--- a/skopt/sampler/lhs.py
+++ b/skopt/sampler/lhs.py
@@ -98,10 +98,11 @@ class Lhs(InitialPointGenerator):
                 for i in range(self.iterations):
                     # Generate a random LHS
                     h = self._lhs_normalized(n_dim, n_samples, rng)
-                    r = np.corrcoef(np.array(h).T)
-                    if len(np.abs(r[r != 1])) > 0 and \
-                            np.max(np.abs(r[r != 1])) < mincorr:
-                        mincorr = np.max(np.abs(r - np.eye(r.shape[0])))
+                    r = np.atleast_2d(np.corrcoef(np.array(h).T))
+                    # the diagonal is 1 up to rounding only
+                    corr = np.max(np.abs(r - np.eye(r.shape[0])))
+                    if n_dim > 1 and corr < mincorr:
+                        mincorr = corr
                         h_opt = h.copy()
                         h_opt = space.inverse_transform(h_opt)
             elif self.criterion == "maximin":
-- 
2.43.0


From 60006bedc9a8653b4c56a6c71aa8846c10dae0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 33/48] fix: fit parameters given to the constructor of
 BayesSearchCV are used

---
 skopt/searchcv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index a0c0dab..ac392f6 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -467,6 +467,8 @@ class BayesSearchCV(BaseSearchCV):
         else:
             self.optimizer_kwargs_ = dict(self.optimizer_kwargs)
 
+        # parameters given to fit take precedence over the constructor's
+        fit_params = dict(self.fit_params or {}, **fit_params)
         super().fit(X=X, y=y, groups=groups, **fit_params)
 
         # BaseSearchCV never ranked train scores,
-- 
2.43.0


From 7c1322164a14e590f26a2c3c960c873a3118497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 34/48] fix: BayesSearchCV does not name the dimensions of the
 caller

---
 skopt/searchcv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index ac392f6..50c563f 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -1,4 +1,5 @@
 import warnings
+from copy import copy
 
 try:
     from collections.abc import Sized
@@ -383,7 +384,9 @@ class BayesSearchCV(BaseSearchCV):
         """
 
         kwargs = self.optimizer_kwargs_.copy()
-        kwargs['dimensions'] = dimensions_aslist(params_space)
+        # the dimensions are named below: name copies, not the caller's
+        kwargs['dimensions'] = [copy(d) for d in
+                                dimensions_aslist(params_space)]
         optimizer = Optimizer(**kwargs)
         for i in range(len(optimizer.space.dimensions)):
             if optimizer.space.dimensions[i].name is not None:
-- 
2.43.0


From 126472efed381e6a39c715ff06e13b6c835b6c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 35/48] fix: gradients of nested products of kernels

---
 skopt/learning/gaussian_process/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skopt/learning/gaussian_process/kernels.py b/skopt/learning/gaussian_process/kernels.py
index c0d55a2..413e969 100644
--- a/skopt/learning/gaussian_process/kernels.py
+++ b/skopt/learning/gaussian_process/kernels.py
@@ -295,14 +295,14 @@ class Product(Kernel, sk_Product):
 
     def gradient_x(self, x, X_train):
         x = np.asarray(x)
-        x = np.expand_dims(x, axis=0)
+        X = np.expand_dims(x, axis=0)
         X_train = np.asarray(X_train)
         f_ggrad = (
-            np.expand_dims(self.k1(x, X_train)[0], axis=1) *
+            np.expand_dims(self.k1(X, X_train)[0], axis=1) *
             self.k2.gradient_x(x, X_train)
         )
         fgrad_g = (
-            np.expand_dims(self.k2(x, X_train)[0], axis=1) *
+            np.expand_dims(self.k2(X, X_train)[0], axis=1) *
             self.k1.gradient_x(x, X_train)
         )
         return f_ggrad + fgrad_g
-- 
2.43.0


From 146b017b0c4a3e753fc8288f4ae30a338ec45420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 36/48] fix: gradient of the standard deviation for
 non-stationary kernels

---
 skopt/learning/gaussian_process/gpr.py     |  5 ++--
 skopt/learning/gaussian_process/kernels.py | 33 ++++++++++++++++++++++
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/skopt/learning/gaussian_process/gpr.py b/skopt/learning/gaussian_process/gpr.py
index 417ba00..a03415e 100644
--- a/skopt/learning/gaussian_process/gpr.py
+++ b/skopt/learning/gaussian_process/gpr.py
@@ -356,8 +356,9 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
                 if return_std_grad:
                     grad_std = np.zeros(X.shape[1])
                     if not np.allclose(y_std, grad_std):
-                        grad_std = -np.dot(K_trans,
-                                           np.dot(K_inv, grad))[0] / y_std
+                        grad_diag = self.kernel_.gradient_diag_x(X[0])
+                        grad_std = (0.5 * grad_diag - np.dot(
+                            K_trans, np.dot(K_inv, grad))[0]) / y_std
                         # undo normalisation
                         grad_std = grad_std * self.y_train_std_**2
                     return y_mean, y_std, grad_mean, grad_std
diff --git a/skopt/learning/gaussian_process/kernels.py b/skopt/learning/gaussian_process/kernels.py
index 413e969..8fec5a8 100644
--- a/skopt/learning/gaussian_process/kernels.py
+++ b/skopt/learning/gaussian_process/kernels.py
@@ -64,6 +64,23 @@ class Kernel(sk_Kernel):
         """
         raise NotImplementedError
 
+    def gradient_diag_x(self, x):
+        """
+        Computes gradient of K(x, x) with respect to x. It is zero for
+        stationary kernels.
+
+        Parameters
+        ----------
+        x: array-like, shape=(n_features,)
+            A single test point.
+
+        Returns
+        -------
+        gradient_diag_x: array-like, shape=(n_features,)
+            Gradient of K(x, x) with respect to x.
+        """
+        return np.zeros(np.shape(x))
+
 
 class RBF(Kernel, sk_RBF):
     def gradient_x(self, x, X_train):
@@ -281,6 +298,11 @@ class Exponentiation(Kernel, sk_Exponentiation):
             kernel(np.expand_dims(x, axis=0), X_train)[0], axis=1)
         return expo * K ** (expo - 1) * kernel.gradient_x(x, X_train)
 
+    def gradient_diag_x(self, x):
+        expo = self.exponent
+        k = self.kernel.diag(np.expand_dims(x, axis=0))[0]
+        return expo * k ** (expo - 1) * self.kernel.gradient_diag_x(x)
+
 
 class Sum(Kernel, sk_Sum):
 
@@ -290,6 +312,9 @@ class Sum(Kernel, sk_Sum):
             self.k2.gradient_x(x, X_train)
         )
 
+    def gradient_diag_x(self, x):
+        return self.k1.gradient_diag_x(x) + self.k2.gradient_diag_x(x)
+
 
 class Product(Kernel, sk_Product):
 
@@ -307,12 +332,20 @@ class Product(Kernel, sk_Product):
         )
         return f_ggrad + fgrad_g
 
+    def gradient_diag_x(self, x):
+        X = np.expand_dims(x, axis=0)
+        return (self.k1.diag(X)[0] * self.k2.gradient_diag_x(x) +
+                self.k2.diag(X)[0] * self.k1.gradient_diag_x(x))
+
 
 class DotProduct(Kernel, sk_DotProduct):
 
     def gradient_x(self, x, X_train):
         return np.asarray(X_train)
 
+    def gradient_diag_x(self, x):
+        return 2. * np.asarray(x)
+
 
 class HammingKernel(sk_StationaryKernelMixin, sk_NormalizedKernelMixin,
                     Kernel):
-- 
2.43.0


From 110fd4008f3924ec9bbf4a0eaa32e98e3ebc2568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 37/48] fix: gradients of Matern kernels with any smoothness

---
 skopt/learning/gaussian_process/kernels.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/skopt/learning/gaussian_process/kernels.py b/skopt/learning/gaussian_process/kernels.py
index 8fec5a8..9ab3803 100644
--- a/skopt/learning/gaussian_process/kernels.py
+++ b/skopt/learning/gaussian_process/kernels.py
@@ -1,6 +1,7 @@
 from math import sqrt
 
 import numpy as np
+from scipy.special import gamma, kv
 from sklearn.gaussian_process.kernels import Kernel as sk_Kernel
 from sklearn.gaussian_process.kernels import ConstantKernel as sk_ConstantKernel
 from sklearn.gaussian_process.kernels import DotProduct as sk_DotProduct
@@ -216,6 +217,23 @@ class Matern(Kernel, sk_Matern):
             g_grad = -g * f1_grad
             return f * g_grad + g * f_grad
 
+        elif self.nu == np.inf:
+            # the kernel is the RBF kernel
+            return RBF.gradient_x(self, x, X_train)
+
+        # grad = k'(t) * grad(t), where t = sqrt(2 * nu) * dist and
+        # k(t) = c * t^nu * kv(nu, t) has k'(t) = -c * t^nu * kv(nu - 1, t)
+        # with c = 2^(1 - nu) / gamma(nu). The gradient is zero (or undefined,
+        # for nu <= 0.5) if all of x_i equals y_i.
+        nu = self.nu
+        mask = dist != 0.0
+        t = sqrt(2 * nu) * dist[mask]
+        k_grad = -2 ** (1. - nu) / gamma(nu) * t ** nu * kv(nu - 1, t)
+        gradient = np.zeros_like(diff)
+        gradient[mask] = (np.expand_dims(k_grad * 2 * nu / t, axis=1) *
+                          diff[mask] / length_scale)
+        return gradient
+
 
 class RationalQuadratic(Kernel, sk_RationalQuadratic):
 
-- 
2.43.0


From d31551281950827582eb05da0886af9176bf3750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 38/48] fix: the default kernel of GaussianProcessRegressor
 leaves its settings alone

---
 skopt/learning/gaussian_process/gpr.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/skopt/learning/gaussian_process/gpr.py b/skopt/learning/gaussian_process/gpr.py
index a03415e..88d3ba3 100644
--- a/skopt/learning/gaussian_process/gpr.py
+++ b/skopt/learning/gaussian_process/gpr.py
@@ -163,6 +163,12 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
             normalize_y=normalize_y, copy_X_train=copy_X_train,
             random_state=random_state)
 
+    def _prior_kernel(self):
+        if self.kernel is None:
+            return ConstantKernel(1.0, constant_value_bounds="fixed") \
+                * RBF(1.0, length_scale_bounds="fixed")
+        return self.kernel
+
     def fit(self, X, y):
         """Fit Gaussian process regression model.
 
@@ -183,16 +189,14 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
             raise ValueError("expected noise to be 'gaussian', got %s"
                              % self.noise)
 
-        if self.kernel is None:
-            self.kernel = ConstantKernel(1.0, constant_value_bounds="fixed") \
-                          * RBF(1.0, length_scale_bounds="fixed")
-        # The noise component is only added for this fit, such that fitting
-        # again starts from the same kernel.
+        # The default kernel and the noise component are only used for this
+        # fit, such that fitting again starts from the same kernel.
         kernel = self.kernel
+        self.kernel = self._prior_kernel()
         if self.noise == "gaussian":
-            self.kernel = kernel + WhiteKernel()
+            self.kernel = self.kernel + WhiteKernel()
         elif self.noise:
-            self.kernel = kernel + WhiteKernel(
+            self.kernel = self.kernel + WhiteKernel(
                 noise_level=self.noise, noise_level_bounds="fixed"
             )
         try:
@@ -309,10 +313,10 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
         if not hasattr(self, "X_train_"):  # Not fit; predict based on GP prior
             y_mean = np.zeros(X.shape[0])
             if return_cov:
-                y_cov = self.kernel(X)
+                y_cov = self._prior_kernel()(X)
                 return y_mean, y_cov
             elif return_std:
-                y_var = self.kernel.diag(X)
+                y_var = self._prior_kernel().diag(X)
                 return y_mean, np.sqrt(y_var)
             else:
                 return y_mean
-- 
2.43.0


From 8608cf56f35a10efc5a4e92deb95a63edaaa85af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 39/48] fix: fitting quantiles leaves the given base estimator
 alone

---
 skopt/learning/gbrt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skopt/learning/gbrt.py b/skopt/learning/gbrt.py
index 76b59c6..6b6efc8 100644
--- a/skopt/learning/gbrt.py
+++ b/skopt/learning/gbrt.py
@@ -74,6 +74,7 @@ class GradientBoostingQuantileRegressor(BaseEstimator, RegressorMixin):
 
         # The predictions for different quantiles should be sorted.
         # Therefore each of the regressors need the same seed.
+        base_estimator = clone(base_estimator)
         base_estimator.set_params(random_state=rng)
         regressors = []
         for q in self.quantiles:
-- 
2.43.0


From 9312c416512ecdf1e6cdaa863ccbbc13f4ffe18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:10 +0000
Subject: [PATCH 40/48] fix: quantiles may be any array-like

---
 skopt/learning/gbrt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skopt/learning/gbrt.py b/skopt/learning/gbrt.py
index 6b6efc8..dff6643 100644
--- a/skopt/learning/gbrt.py
+++ b/skopt/learning/gbrt.py
@@ -115,10 +115,10 @@ class GradientBoostingQuantileRegressor(BaseEstimator, RegressorMixin):
                 raise ValueError(
                     "return_std works only if the quantiles during "
                     "instantiation include 0.16, 0.5 and 0.84")
-            low = self.regressors_[self.quantiles.index(0.16)].predict(X)
-            high = self.regressors_[self.quantiles.index(0.84)].predict(X)
-            mean = self.regressors_[self.quantiles.index(0.5)].predict(X)
+            low = self.regressors_[list(self.quantiles).index(0.16)].predict(X)
+            high = self.regressors_[list(self.quantiles).index(0.84)].predict(X)
+            mean = self.regressors_[list(self.quantiles).index(0.5)].predict(X)
             return mean, ((high - low) / 2.0)
 
         # return the mean
-        return self.regressors_[self.quantiles.index(0.5)].predict(X)
+        return self.regressors_[list(self.quantiles).index(0.5)].predict(X)
-- 
2.43.0


From a4c68d81602df5c61913467853f1e50b8b58189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:07 +0000
Subject: [PATCH 41/48] fix: results of ask and tell can be dumped without the
 objective

---
 skopt/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index 2aa3bda..15d2261 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -133,7 +133,8 @@ def dump(res, filename, store_objective=True, **kwargs):
     **kwargs : other keyword arguments
         All other keyword arguments will be passed to `joblib.dump`.
     """
-    if store_objective:
+    if store_objective or res.specs is None:
+        # Results of an `Optimizer` do not hold the objective.
         dump_(res, filename, **kwargs)
 
     elif 'func' in res.specs['args']:
-- 
2.43.0


From 6396a3d495be2d5ba13083fd927b541f2db625fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:19 +0000
Subject: [PATCH 42/48] fix: plot_evaluations of some of the dimensions

Whether a dimension is categorical was looked up by the position of the
dimension in the plot instead of the one in the space.
---
 skopt/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 5a14b01..1bc4543 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -827,7 +827,7 @@ def plot_evaluations(result, bins=20, dimensions=None,
         for j in range(n_dims):
             if i == j:
                 index, dim = plot_dims[i]
-                if iscat[j]:
+                if iscat[index]:
                     bins_ = len(dim.categories)
                 elif dim.prior == 'log-uniform':
                     low, high = space.bounds[index]
@@ -839,7 +839,7 @@ def plot_evaluations(result, bins=20, dimensions=None,
                 else:
                     ax_ = ax[i, i]
                 ax_.hist(samples[:, index], bins=bins_,
-                         range=None if iscat[j] else dim.bounds)
+                         range=None if iscat[index] else dim.bounds)
 
             # lower triangle
             elif i > j:
-- 
2.43.0


From 3d9bcb582b1baaa9876c2a1238188de0855e7c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:19 +0000
Subject: [PATCH 43/48] fix: histograms of log-uniform dimensions contain the
 bounds

10 ** log10(bound) may lie inside of the bound.
---
 skopt/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 1bc4543..4c9a2c4 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -831,7 +831,7 @@ def plot_evaluations(result, bins=20, dimensions=None,
                     bins_ = len(dim.categories)
                 elif dim.prior == 'log-uniform':
                     low, high = space.bounds[index]
-                    bins_ = np.logspace(np.log10(low), np.log10(high), bins)
+                    bins_ = np.geomspace(low, high, bins)
                 else:
                     bins_ = bins
                 if n_dims == 1:
@@ -1243,7 +1243,7 @@ def plot_histogram(result, dimension_identifier, bins=20, rotate_labels=0,
         # in which case the histogram can be plotted more easily.
         if dimension.prior == 'log-uniform':
             # Map the number of bins to a log-space for the dimension bounds.
-            bins_mapped = np.logspace(*np.log10(dimension.bounds), bins)
+            bins_mapped = np.geomspace(*dimension.bounds, bins)
         else:
             # Use the original number of bins.
             bins_mapped = bins
-- 
2.43.0


From c69eebf5bf66f21878aee7fba39dfe96326fb105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:19 +0000
Subject: [PATCH 44/48] fix: plot_convergence draws a true minimum of zero

---
 skopt/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 4c9a2c4..23b9d92 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -95,12 +95,12 @@ def plot_convergence(*args, **kwargs):
             ax.plot(iterations, np.mean(mins, axis=0), c=color,
                     marker=".", markersize=12, lw=2, label=name)
 
-    if true_minimum:
+    if true_minimum is not None:
         ax.axhline(true_minimum, linestyle="--",
                    color="r", lw=1,
                    label="True minimum")
 
-    if true_minimum or name:
+    if true_minimum is not None or name:
         ax.legend(loc="best")
 
     return ax
-- 
2.43.0


From 474fecba0b5353481ef53891d3ccf4b2024a993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:19 +0000
Subject: [PATCH 45/48] fix: plot_gaussian_process shows the observations of
 the model

The number of observations a former model was fitted to was one too small
when the deprecated n_random_starts was not used, and points given by the
user were not counted. Results without specs failed.
---
 skopt/plots.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 23b9d92..9f30c68 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -175,8 +175,8 @@ def plot_gaussian_process(res, **kwargs):
     x, x_model = _evenly_sample(dimension, n_points)
     x = x.reshape(-1, 1)
     x_model = x_model.reshape(-1, 1)
+    acq_func, acq_func_kwargs = "EI", {}
     if res.specs is not None and "args" in res.specs:
-        n_random = res.specs["args"].get('n_random_starts', None)
         acq_func = res.specs["args"].get("acq_func", "EI")
         acq_func_kwargs = res.specs["args"].get("acq_func_kwargs", {})
 
@@ -184,8 +184,6 @@ def plot_gaussian_process(res, **kwargs):
         acq_func_kwargs = {}
     if acq_func is None or acq_func == "gp_hedge":
         acq_func = "EI"
-    if n_random is None:
-        n_random = len(res.x_iters) - len(res.models)
 
     if objective is not None:
         fx = np.array([objective(x_i) for x_i in x])
@@ -196,8 +194,10 @@ def plot_gaussian_process(res, **kwargs):
     else:
         model = res.models[n_calls]
 
-        curr_x_iters = res.x_iters[:n_random + n_calls]
-        curr_func_vals = res.func_vals[:n_random + n_calls]
+        # the last model was fitted to all of the observations
+        n_obs = len(res.x_iters) - len(res.models) + 1 + n_calls
+        curr_x_iters = res.x_iters[:n_obs]
+        curr_func_vals = res.func_vals[:n_obs]
 
     # Plot true function.
     if objective is not None:
-- 
2.43.0


From 5294fd9c4096e5814a294e22fd1b2e44f67fb585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 46/48] fix: tick labels of categorical axes beyond the
 categories

Ticks outside of the categories made plot_evaluations and plot_objective
fail, or were labelled with the last category.
---
 skopt/plots.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 9f30c68..e23689b 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -1334,7 +1334,10 @@ def _evenly_sample(dim, n_points):
 def _cat_format(dimension, x, _):
     """Categorical axis tick formatter function.  Returns the name of category
     `x` in `dimension`.  Used with `matplotlib.ticker.FuncFormatter`."""
-    return str(dimension.categories[int(x)])
+    index = int(x)
+    if not 0 <= index < len(dimension.categories):
+        return ''  # ticks may lie outside of the range of the data
+    return str(dimension.categories[index])
 
 
 def _evaluate_min_params(result, params='result',
-- 
2.43.0


From 47cbce37db0727d59f7c267902056578d5f199fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 47/48] fix: partial dependence of integer dimensions

If all columns of the transformed samples are integers, the positions at
which the model is evaluated were truncated to integers, unlike the ones
that are returned and shown.
---
 skopt/plots.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skopt/plots.py b/skopt/plots.py
index e23689b..3a21674 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -957,6 +957,8 @@ def partial_dependence_1D(space, model, i, samples,
         and then averaging over all samples.
         """
         rvs_ = np.array(samples)  # copy
+        if rvs_.dtype.kind in 'iu':
+            rvs_ = rvs_.astype(float)  # do not truncate the fixed values
         # We replace the values in the dimension that we want to keep
         # fixed
         rvs_[:, dim_locs[i]:dim_locs[i + 1]] = x
@@ -1040,6 +1042,8 @@ def partial_dependence_2D(space, model, i, j, samples,
         and then averaging over all samples.
         """
         rvs_ = np.array(samples)  # copy
+        if rvs_.dtype.kind in 'iu':
+            rvs_ = rvs_.astype(float)  # do not truncate the fixed values
         rvs_[:, dim_locs[j]:dim_locs[j + 1]] = x
         rvs_[:, dim_locs[i]:dim_locs[i + 1]] = y
         return np.mean(model.predict(rvs_))
-- 
2.43.0


From 60d3f2892134f9e4939f981ca0630ab97688b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 48/48] fix: a class is no surrogate

An estimator class passed the check for regressors, so that the optimizer
failed when it trained the first model.
---
 skopt/optimizer/optimizer.py | 4 +++-
 skopt/utils.py               | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 2d1f0fe..4d62160 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -222,7 +222,9 @@ class Optimizer(object):
                 n_jobs=n_jobs)
 
         # check if regressor
-        if not is_regressor(base_estimator) and base_estimator is not None:
+        if base_estimator is not None and (
+                isinstance(base_estimator, type) or
+                not is_regressor(base_estimator)):
             raise ValueError(
                 "%s has to be a regressor." % base_estimator)
 
diff --git a/skopt/utils.py b/skopt/utils.py
index 15d2261..f2ee3ea 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -369,7 +369,8 @@ def cook_estimator(base_estimator, space=None, **kwargs):
             raise ValueError("Valid strings for the base_estimator parameter "
                              " are: 'RF', 'ET', 'GP', 'GBRT' or 'DUMMY' not "
                              "%s." % base_estimator)
-    elif not is_regressor(base_estimator):
+    elif isinstance(base_estimator, type) or \
+            not is_regressor(base_estimator):
         raise ValueError("base_estimator has to be a regressor.")
 
     if base_estimator == "GP":
-- 
2.43.0

