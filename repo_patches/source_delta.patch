From 88d479b34c5e04ad6b5035f9196c732a2cafa13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:21 +0000
Subject: [PATCH 01/49] fix: KNNClassifier.predict_proba must not extend
 self.classes

Predicting changed the model: classes only seen in the window were stored in
self.classes as a side effect of a prediction.
---
 src/skmultiflow/lazy/knn_classifier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/lazy/knn_classifier.py b/src/skmultiflow/lazy/knn_classifier.py
index bfe8727..ef3d1cd 100644
--- a/src/skmultiflow/lazy/knn_classifier.py
+++ b/src/skmultiflow/lazy/knn_classifier.py
@@ -173,12 +173,12 @@ class KNNClassifier(BaseNeighbors, ClassifierMixin):
             return np.zeros(shape=(r, 1))
         proba = []
 
-        self.classes = list(set().union(self.classes,
-                                        np.unique(self.data_window.targets_buffer.astype(np.int))))
+        classes = list(set().union(self.classes,
+                                   np.unique(self.data_window.targets_buffer.astype(np.int))))
 
         new_dist, new_ind = self._get_neighbors(X)
         for i in range(r):
-            votes = [0.0 for _ in range(int(max(self.classes) + 1))]
+            votes = [0.0 for _ in range(int(max(classes) + 1))]
             for index in new_ind[i]:
                 votes[int(self.data_window.targets_buffer[index])] += 1. / len(new_ind[i])
             proba.append(votes)
-- 
2.43.0


From 278df90353a30f377cdfc167cd14069d39061709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:21 +0000
Subject: [PATCH 02/49] fix: SAMKNNClassifier.predict must not initialise the
 memories

Predicting with an untrained model fixed the number of features of its memories.
---
 src/skmultiflow/lazy/sam_knn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/lazy/sam_knn.py b/src/skmultiflow/lazy/sam_knn.py
index cdfc9cc..645b078 100644
--- a/src/skmultiflow/lazy/sam_knn.py
+++ b/src/skmultiflow/lazy/sam_knn.py
@@ -450,8 +450,8 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
         r, c = get_dimensions(X)
         predictedLabel = []
         if self._STMSamples is None:
-            self._STMSamples = np.empty(shape=(0, c))
-            self._LTMSamples = np.empty(shape=(0, c))
+            # The model is empty, defaulting to zero
+            return np.zeros(r, dtype=int)
 
         for i in range(r):
             distancesSTM = SAMKNNClassifier.get_distances(X[i], self._STMSamples)
-- 
2.43.0


From 6bb68b0679272253ffa37030ef5e15e6245aacdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:21 +0000
Subject: [PATCH 03/49] fix: predicting with an untrained adaptive random
 forest must not build the ensemble

predict/predict_proba created the ensemble, consumed the random generator and
overwrote max_features from the shape of the data to predict.
---
 src/skmultiflow/meta/adaptive_random_forest_regressor.py | 3 ++-
 src/skmultiflow/meta/adaptive_random_forests.py          | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forest_regressor.py b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
index 1a1dd24..aee6601 100644
--- a/src/skmultiflow/meta/adaptive_random_forest_regressor.py
+++ b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
@@ -315,7 +315,8 @@ class AdaptiveRandomForestRegressor(RegressorMixin, AdaptiveRandomForestClassifi
         """
         predictions = np.zeros((self.n_estimators, get_dimensions(X)[0]))
         if self.ensemble is None:
-            self._init_ensemble(X)
+            # The model is empty, defaulting to zero
+            return predictions.mean(axis=0)
 
         for i, learner in enumerate(self.ensemble):
             predictions[i, :] = learner.predict(X)
diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 9c1be79..f8d24b6 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -373,10 +373,11 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
             has non-zero predictions.
             If no estimator can predict probabilities, probabilities of 0 are returned.
         """
+        r, _ = get_dimensions(X)
         if self.ensemble is None:
-            self._init_ensemble(X)
+            # The model is empty, defaulting to zero
+            return np.zeros(shape=(r, 1))
 
-        r, _ = get_dimensions(X)
         y_proba = []
         for i in range(r):
             votes = deepcopy(self._get_votes_for_instance(X[i]))
@@ -409,9 +410,9 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
         self._random_state = check_random_state(self.random_state)
 
     def _get_votes_for_instance(self, X):
-        if self.ensemble is None:
-            self._init_ensemble(X)
         combined_votes = {}
+        if self.ensemble is None:
+            return combined_votes
 
         for i in range(self.n_estimators):
             vote = deepcopy(self.ensemble[i]._get_votes_for_instance(X))
-- 
2.43.0


From fae90c74f80331bb8bdd32a72fcdc68b4e263376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:21 +0000
Subject: [PATCH 04/49] fix: predicting with an untrained
 StreamingRandomPatchesClassifier must not build the ensemble

---
 src/skmultiflow/meta/streaming_random_patches.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index c478389..7b79bcc 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -262,7 +262,6 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         n_samples, n_features = get_dimensions(X)
 
         if self.ensemble is None:
-            self._init_ensemble(n_features=n_features)
             return np.zeros(n_samples)
 
         y_proba = self.predict_proba(X)
@@ -290,7 +289,6 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         y_proba = []
 
         if self.ensemble is None:
-            self._init_ensemble(n_features=n_features)
             return np.zeros(n_samples)
 
         for i in range(n_samples):
-- 
2.43.0


From ad9c0fde555e95731d484df560cfe18864523aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:21 +0000
Subject: [PATCH 05/49] fix: StreamingRandomPatchesClassifier never ended
 extending its subspaces

The result of np.vstack was discarded, so the loop did not terminate when there
are fewer feature combinations than estimators.
---
 src/skmultiflow/meta/streaming_random_patches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index 7b79bcc..bada989 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -358,7 +358,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                     i = 0
                     while len(self._subspaces) < self.n_estimators:
                         i = 0 if i == len(self._subspaces) else i
-                        np.vstack((self._subspaces, self._subspaces[i]))
+                        self._subspaces = np.vstack((self._subspaces, self._subspaces[i]))
                         i += 1
                 # For high dimensionality we can't generate all combinations
                 # as it is too expensive (memory). On top of that, the chance
-- 
2.43.0


From c89702ab032027bbca0270d80663e0515b87a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:21 +0000
Subject: [PATCH 06/49] fix: AccuracyWeightedEnsembleClassifier.predict shared
 one vote dictionary between all rows

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index a73382a..4172e0a 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -287,7 +287,7 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         if sum_weights == 0:
             sum_weights = 1  # safety check: if sum_weights = 0, do as if sum_weights = 1
 
-        weighted_votes = [dict()] * N
+        weighted_votes = [dict() for _ in range(N)]
         for model in ensemble:
             classifier = model.estimator
             prediction = classifier.predict(X)
-- 
2.43.0


From 83ca05e853a5f95f33fb50a40553218fcdc1ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:21 +0000
Subject: [PATCH 07/49] fix: AdaptiveRandomForestRegressor.reset must keep
 max_features

reset() set max_features to 0, so every tree built afterwards considered a single
feature per split.
---
 src/skmultiflow/meta/adaptive_random_forest_regressor.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forest_regressor.py b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
index aee6601..3155372 100644
--- a/src/skmultiflow/meta/adaptive_random_forest_regressor.py
+++ b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
@@ -349,7 +349,6 @@ class AdaptiveRandomForestRegressor(RegressorMixin, AdaptiveRandomForestClassifi
         # TODO: check whether this is enough
 
         self.ensemble = None
-        self.max_features = 0
         self.instances_seen = 0
         self._random_state = check_random_state(self.random_state)
 
-- 
2.43.0


From 1e612e079b8dd371cd7e247f63a28f7cfe8bdf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:24 +0000
Subject: [PATCH 08/49] fix: VeryFastDecisionRulesClassifier.get_model_rules
 must not change the rules

Asking for the rules overwrote the class each rule learns, which changed how an
ordered rule set with the foil gain criterion was expanded afterwards.
---
 src/skmultiflow/rules/very_fast_decision_rules.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 289e33b..9c0cc2d 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -872,10 +872,11 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
         -------
         list (rule)
         """
-        for rule in self.rule_set:
+        rules = copy.deepcopy(self.rule_set)
+        for rule in rules:
             class_idx = max(rule.observed_class_distribution.items(), key=itemgetter(1))[0]
             rule.class_idx = class_idx
-        return self.rule_set
+        return rules
 
     def get_model_description(self):
         """ Returns the rules of the model
-- 
2.43.0


From a9a95f3004c5cc895edc3bbc9b2451d098a3edf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:08 +0000
Subject: [PATCH 09/49] fix: stream transforms must not overwrite the data they
 are given

MissingValuesCleaner, WindowedMinmaxScaler and WindowedStandardScaler wrote the
transformed values into the caller's array.
---
 src/skmultiflow/transform/missing_values_cleaner.py   | 1 +
 src/skmultiflow/transform/windowed_minmax_scaler.py   | 1 +
 src/skmultiflow/transform/windowed_standard_scaler.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/skmultiflow/transform/missing_values_cleaner.py b/src/skmultiflow/transform/missing_values_cleaner.py
index bcb9cae..4c2ab36 100644
--- a/src/skmultiflow/transform/missing_values_cleaner.py
+++ b/src/skmultiflow/transform/missing_values_cleaner.py
@@ -98,6 +98,7 @@ class MissingValuesCleaner(StreamTransform):
         
         """
         r, c = get_dimensions(X)
+        X = np.array(X)
         for i in range(r):
             if self.strategy in ['mean', 'median', 'mode']:
                 self.window.add_element([X[i][:]])
diff --git a/src/skmultiflow/transform/windowed_minmax_scaler.py b/src/skmultiflow/transform/windowed_minmax_scaler.py
index d6cad88..e4761b3 100644
--- a/src/skmultiflow/transform/windowed_minmax_scaler.py
+++ b/src/skmultiflow/transform/windowed_minmax_scaler.py
@@ -39,6 +39,7 @@ class WindowedMinmaxScaler(StreamTransform):
 
         """
         r, c = get_dimensions(X)
+        X = np.array(X)
         for i in range(r):
             row = np.copy([X[i][:]])
             for j in range(c):
diff --git a/src/skmultiflow/transform/windowed_standard_scaler.py b/src/skmultiflow/transform/windowed_standard_scaler.py
index 33910f5..93a883b 100644
--- a/src/skmultiflow/transform/windowed_standard_scaler.py
+++ b/src/skmultiflow/transform/windowed_standard_scaler.py
@@ -37,6 +37,7 @@ class WindowedStandardScaler(StreamTransform):
 
         """
         r, c = get_dimensions(X)
+        X = np.array(X)
         for i in range(r):
             row = np.copy([X[i][:]])
             for j in range(c):
-- 
2.43.0


From 1eea8bb6a2657a0f65c47742de58036bbdea6ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:08 +0000
Subject: [PATCH 10/49] fix: prequential evaluators must not append to the
 caller's list of metrics

---
 src/skmultiflow/evaluation/evaluate_prequential.py         | 3 +--
 src/skmultiflow/evaluation/evaluate_prequential_delayed.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/evaluation/evaluate_prequential.py b/src/skmultiflow/evaluation/evaluate_prequential.py
index f5db596..2ad09cb 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential.py
@@ -214,8 +214,7 @@ class EvaluatePrequential(StreamEvaluator):
 
             else:
                 if isinstance(metrics, list):
-                    self.metrics = metrics
-                    self.metrics.append(constants.DATA_POINTS)
+                    self.metrics = metrics + [constants.DATA_POINTS]
                 else:
                     raise ValueError(
                         "Attribute 'metrics' must be 'None' or 'list', passed {}".format(
diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index 0488b8c..61c07ed 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -239,8 +239,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
 
             else:
                 if isinstance(metrics, list):
-                    self.metrics = metrics
-                    self.metrics.append(constants.DATA_POINTS)
+                    self.metrics = metrics + [constants.DATA_POINTS]
                 else:
                     raise TypeError("Attribute 'metrics' must be 'None' or 'list', passed {}".
                                     format(type(metrics)))
-- 
2.43.0


From bcee23378c72b4c0e14cbbc9b6753b2ac7c144b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:36 +0000
Subject: [PATCH 11/49] fix: classification measurements must not append to the
 caller's list of targets

---
 src/skmultiflow/metrics/measure_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/metrics/measure_collection.py b/src/skmultiflow/metrics/measure_collection.py
index 97cac58..5cc8c2e 100644
--- a/src/skmultiflow/metrics/measure_collection.py
+++ b/src/skmultiflow/metrics/measure_collection.py
@@ -44,7 +44,7 @@ class ClassificationMeasurements(object):
         super().__init__()
         if targets is not None:
             self.n_targets = len(targets)
-            self.targets = targets
+            self.targets = list(targets)
         else:
             self.n_targets = 2
             self.targets = [0, 1]
@@ -378,7 +378,7 @@ class WindowClassificationMeasurements(object):
         super().__init__()
         if targets is not None:
             self.n_targets = len(targets)
-            self.targets = targets
+            self.targets = list(targets)
         else:
             self.n_targets = 2
             self.targets = [0, 1]
-- 
2.43.0


From 3aed267ed8e0a7e27ff39f6a67512998e5951fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:36 +0000
Subject: [PATCH 12/49] fix: RSLVQ must train a copy of initial_prototypes

The prototypes were a view of the caller's array, which training overwrote; and for
a list every partial_fit call started over from the initial prototypes.
---
 .../prototype/robust_soft_learning_vector_quantization.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
index 3ee403a..3509ec7 100644
--- a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
+++ b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
@@ -253,8 +253,8 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
 
                     self.c_w_[pos:pos + nb_prot] = actClass
                 pos += nb_prot
-        else:
-            x = validation.check_array(self.initial_prototypes)
+        elif self.initial_fit:
+            x = validation.check_array(self.initial_prototypes, copy=True)
             self.w_ = x[:, :-1]
             self.c_w_ = x[:, -1]
             if self.w_.shape != (np.sum(nb_ppc), nb_features):
-- 
2.43.0


From 2b44cf07874499809cad14b7a59714edfeee264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:36 +0000
Subject: [PATCH 13/49] fix: ensembles must not reset the base estimator they
 are given

Creating, resetting or first training an ensemble called reset() on the user's
estimator (or on the instance shared by every ensemble using the default), which
lost whatever it had learnt. A private copy is reset instead.
---
 src/skmultiflow/meta/leverage_bagging.py          |  8 +++++---
 src/skmultiflow/meta/online_adac2.py              | 10 ++++++----
 src/skmultiflow/meta/online_boosting.py           | 10 ++++++----
 src/skmultiflow/meta/online_csb2.py               | 10 ++++++----
 src/skmultiflow/meta/online_rus_boost.py          | 10 ++++++----
 src/skmultiflow/meta/online_smote_bagging.py      | 10 ++++++----
 src/skmultiflow/meta/online_under_over_bagging.py | 10 ++++++----
 src/skmultiflow/meta/oza_bagging.py               | 10 ++++++----
 src/skmultiflow/meta/oza_bagging_adwin.py         |  2 +-
 src/skmultiflow/meta/streaming_random_patches.py  |  3 ---
 10 files changed, 48 insertions(+), 35 deletions(-)

diff --git a/src/skmultiflow/meta/leverage_bagging.py b/src/skmultiflow/meta/leverage_bagging.py
index 9d019e1..a7a917a 100644
--- a/src/skmultiflow/meta/leverage_bagging.py
+++ b/src/skmultiflow/meta/leverage_bagging.py
@@ -168,10 +168,12 @@ class LeveragingBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorM
         self.__configure()
 
     def __configure(self):
-        if hasattr(self.base_estimator, "reset"):
-            self.base_estimator.reset()
+        # Reset a private copy, the estimator passed by the user must not change
+        self._base_estimator = cp.deepcopy(self.base_estimator)
+        if hasattr(self._base_estimator, "reset"):
+            self._base_estimator.reset()
         self.actual_n_estimators = self.n_estimators
-        self.ensemble = [cp.deepcopy(self.base_estimator) for _ in range(self.actual_n_estimators)]
+        self.ensemble = [cp.deepcopy(self._base_estimator) for _ in range(self.actual_n_estimators)]
         self.adwin_ensemble = [ADWIN(self.delta) for _ in range(self.actual_n_estimators)]
         self._random_state = check_random_state(self.random_state)
         self.n_detected_changes = 0
diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index a75a0c2..8933099 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -140,14 +140,16 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.werr = None
 
     def __configure(self):
-        if hasattr(self.base_estimator, "reset"):
-            self.base_estimator.reset()
+        # Reset a private copy, the estimator passed by the user must not change
+        self._base_estimator = cp.deepcopy(self.base_estimator)
+        if hasattr(self._base_estimator, "reset"):
+            self._base_estimator.reset()
 
         self.actual_n_estimators = self.n_estimators
         self.adwin_ensemble = []
         for i in range(self.actual_n_estimators):
             self.adwin_ensemble.append(ADWIN())
-        self.ensemble = [cp.deepcopy(self.base_estimator) for _ in range(self.actual_n_estimators)]
+        self.ensemble = [cp.deepcopy(self._base_estimator) for _ in range(self.actual_n_estimators)]
         self._random_state = check_random_state(self.random_state)
         self.lam_tp = np.zeros(self.actual_n_estimators)
         self.lam_fn = np.zeros(self.actual_n_estimators)
@@ -279,7 +281,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         if len(self.classes) != len(self.ensemble):
             if len(self.classes) > len(self.ensemble):
                 for i in range(len(self.ensemble), len(self.classes)):
-                    self.ensemble.append(cp.deepcopy(self.base_estimator))
+                    self.ensemble.append(cp.deepcopy(self._base_estimator))
                     self.actual_n_estimators += 1
                     self.adwin_ensemble.append(ADWIN())
                 self.lam_tp = np.zeros(self.actual_n_estimators)
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index bb7fa18..b053a06 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -133,14 +133,16 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         self.epsilon = None
 
     def __configure(self):
-        if hasattr(self.base_estimator, "reset"):
-            self.base_estimator.reset()
+        # Reset a private copy, the estimator passed by the user must not change
+        self._base_estimator = cp.deepcopy(self.base_estimator)
+        if hasattr(self._base_estimator, "reset"):
+            self._base_estimator.reset()
 
         self.actual_n_estimators = self._init_n_estimators
         self.adwin_ensemble = []
         for i in range(self.actual_n_estimators):
             self.adwin_ensemble.append(ADWIN())
-        self.ensemble = [cp.deepcopy(self.base_estimator) for _ in range(self.actual_n_estimators)]
+        self.ensemble = [cp.deepcopy(self._base_estimator) for _ in range(self.actual_n_estimators)]
         self._random_state = check_random_state(self.random_state)
         self.lam_sc = np.zeros(self.actual_n_estimators)
         self.lam_sw = np.zeros(self.actual_n_estimators)
@@ -255,7 +257,7 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         if len(self.classes) != len(self.ensemble):
             if len(self.classes) > len(self.ensemble):
                 for i in range(len(self.ensemble), len(self.classes)):
-                    self.ensemble.append(cp.deepcopy(self.base_estimator))
+                    self.ensemble.append(cp.deepcopy(self._base_estimator))
                     self.actual_n_estimators += 1
                     self.adwin_ensemble.append(ADWIN())
                 self.lam_sw = np.zeros(self.actual_n_estimators)
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index ea59584..be0979f 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -136,13 +136,15 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.epsilon = None
 
     def __configure(self):
-        if hasattr(self.base_estimator, "reset"):
-            self.base_estimator.reset()
+        # Reset a private copy, the estimator passed by the user must not change
+        self._base_estimator = cp.deepcopy(self.base_estimator)
+        if hasattr(self._base_estimator, "reset"):
+            self._base_estimator.reset()
         self.actual_n_estimators = self.n_estimators
         self.adwin_ensemble = []
         for i in range(self.actual_n_estimators):
             self.adwin_ensemble.append(ADWIN())
-        self.ensemble = [cp.deepcopy(self.base_estimator) for _ in range(self.actual_n_estimators)]
+        self.ensemble = [cp.deepcopy(self._base_estimator) for _ in range(self.actual_n_estimators)]
         self._random_state = check_random_state(self.random_state)
         self.lam_fn = np.zeros(self.actual_n_estimators)
         self.lam_fp = np.zeros(self.actual_n_estimators)
@@ -271,7 +273,7 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         if len(self.classes) != len(self.ensemble):
             if len(self.classes) > len(self.ensemble):
                 for i in range(len(self.ensemble), len(self.classes)):
-                    self.ensemble.append(cp.deepcopy(self.base_estimator))
+                    self.ensemble.append(cp.deepcopy(self._base_estimator))
                     self.actual_n_estimators += 1
                     self.adwin_ensemble.append(ADWIN())
                 self.lam_fn = np.zeros(self.actual_n_estimators)
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 5ebbf73..537b26b 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -138,14 +138,16 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         self.epsilon = None
 
     def __configure(self):
-        if hasattr(self.base_estimator, "reset"):
-            self.base_estimator.reset()
+        # Reset a private copy, the estimator passed by the user must not change
+        self._base_estimator = cp.deepcopy(self.base_estimator)
+        if hasattr(self._base_estimator, "reset"):
+            self._base_estimator.reset()
 
         self.actual_n_estimators = self.n_estimators
         self.adwin_ensemble = []
         for i in range(self.actual_n_estimators):
             self.adwin_ensemble.append(ADWIN())
-        self.ensemble = [cp.deepcopy(self.base_estimator) for _ in range(self.actual_n_estimators)]
+        self.ensemble = [cp.deepcopy(self._base_estimator) for _ in range(self.actual_n_estimators)]
         self._random_state = check_random_state(self.random_state)
         self.lam_sc = np.zeros(self.actual_n_estimators)
         self.lam_pos = np.zeros(self.actual_n_estimators)
@@ -300,7 +302,7 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         if len(self.classes) != len(self.ensemble):
             if len(self.classes) > len(self.ensemble):
                 for i in range(len(self.ensemble), len(self.classes)):
-                    self.ensemble.append(cp.deepcopy(self.base_estimator))
+                    self.ensemble.append(cp.deepcopy(self._base_estimator))
                     self.actual_n_estimators += 1
                     self.adwin_ensemble.append(ADWIN())
                 self.lam_sc = np.zeros(self.actual_n_estimators)
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 3c0fae5..0e5a71c 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -126,14 +126,16 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
         self.adwin_ensemble = None
 
     def __configure(self):
-        if hasattr(self.base_estimator, "reset"):
-            self.base_estimator.reset()
+        # Reset a private copy, the estimator passed by the user must not change
+        self._base_estimator = cp.deepcopy(self.base_estimator)
+        if hasattr(self._base_estimator, "reset"):
+            self._base_estimator.reset()
 
         self.actual_n_estimators = self.n_estimators
         self.adwin_ensemble = []
         for i in range(self.actual_n_estimators):
             self.adwin_ensemble.append(ADWIN())
-        self.ensemble = [cp.deepcopy(self.base_estimator) for _ in range(self.actual_n_estimators)]
+        self.ensemble = [cp.deepcopy(self._base_estimator) for _ in range(self.actual_n_estimators)]
         self._random_state = check_random_state(self._init_random_state)
         self.pos_samples = []
 
@@ -254,7 +256,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
         if len(self.classes) != len(self.ensemble):
             if len(self.classes) > len(self.ensemble):
                 for i in range(len(self.ensemble), len(self.classes)):
-                    self.ensemble.append(cp.deepcopy(self.base_estimator))
+                    self.ensemble.append(cp.deepcopy(self._base_estimator))
                     self.actual_n_estimators += 1
                     self.adwin_ensemble.append(ADWIN())
 
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 7952955..7667b8d 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -131,14 +131,16 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         self.adwin_ensemble = None
 
     def __configure(self):
-        if hasattr(self.base_estimator, "reset"):
-            self.base_estimator.reset()
+        # Reset a private copy, the estimator passed by the user must not change
+        self._base_estimator = cp.deepcopy(self.base_estimator)
+        if hasattr(self._base_estimator, "reset"):
+            self._base_estimator.reset()
 
         self.actual_n_estimators = self.n_estimators
         self.adwin_ensemble = []
         for i in range(self.actual_n_estimators):
             self.adwin_ensemble.append(ADWIN())
-        self.ensemble = [cp.deepcopy(self.base_estimator) for _ in range(self.actual_n_estimators)]
+        self.ensemble = [cp.deepcopy(self._base_estimator) for _ in range(self.actual_n_estimators)]
         self._random_state = check_random_state(self.random_state)
 
     def reset(self):
@@ -241,7 +243,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         if len(self.classes) != len(self.ensemble):
             if len(self.classes) > len(self.ensemble):
                 for i in range(len(self.ensemble), len(self.classes)):
-                    self.ensemble.append(cp.deepcopy(self.base_estimator))
+                    self.ensemble.append(cp.deepcopy(self._base_estimator))
                     self.actual_n_estimators += 1
                     self.adwin_ensemble.append(ADWIN())
 
diff --git a/src/skmultiflow/meta/oza_bagging.py b/src/skmultiflow/meta/oza_bagging.py
index eb634a6..fece39d 100644
--- a/src/skmultiflow/meta/oza_bagging.py
+++ b/src/skmultiflow/meta/oza_bagging.py
@@ -111,10 +111,12 @@ class OzaBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.__configure()
 
     def __configure(self):
-        if hasattr(self.base_estimator, "reset"):
-            self.base_estimator.reset()
+        # Reset a private copy, the estimator passed by the user must not change
+        self._base_estimator = cp.deepcopy(self.base_estimator)
+        if hasattr(self._base_estimator, "reset"):
+            self._base_estimator.reset()
         self.actual_n_estimators = self.n_estimators
-        self.ensemble = [cp.deepcopy(self.base_estimator) for _ in range(self.actual_n_estimators)]
+        self.ensemble = [cp.deepcopy(self._base_estimator) for _ in range(self.actual_n_estimators)]
         self._random_state = check_random_state(self.random_state)
 
     def reset(self):
@@ -190,7 +192,7 @@ class OzaBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         if len(self.classes) != len(self.ensemble):
             if len(self.classes) > len(self.ensemble):
                 for i in range(len(self.ensemble), len(self.classes)):
-                    self.ensemble.append(cp.deepcopy(self.base_estimator))
+                    self.ensemble.append(cp.deepcopy(self._base_estimator))
                     self.actual_n_estimators += 1
 
     def predict(self, X):
diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index 7bc0bde..7d824a3 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -205,6 +205,6 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
         if len(self.classes) != len(self.ensemble):
             if len(self.classes) > len(self.ensemble):
                 for i in range(len(self.ensemble), len(self.classes)):
-                    self.ensemble.append(cp.deepcopy(self.base_estimator))
+                    self.ensemble.append(cp.deepcopy(self._base_estimator))
                     self.adwin_ensemble.append(ADWIN())
                     self.actual_n_estimators += 1
diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index bada989..fa256b4 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -374,9 +374,6 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
             else:
                 self.training_method = self._TRAIN_RESAMPLING
 
-        # Reset the base estimator for safety.
-        self.base_estimator.reset()
-
         # Initialize ensemble members
         self._init_ensemble_members()
 
-- 
2.43.0


From e0c613b4123bc71438329d2486af691c9b083cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:02 +0000
Subject: [PATCH 14/49] fix: LEDGeneratorDrift instances shared one attribute
 permutation

The class attribute was modified in place, so creating a second generator changed
which attributes the first one swaps.
---
 src/skmultiflow/data/led_generator_drift.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/data/led_generator_drift.py b/src/skmultiflow/data/led_generator_drift.py
index b63222f..502f1db 100644
--- a/src/skmultiflow/data/led_generator_drift.py
+++ b/src/skmultiflow/data/led_generator_drift.py
@@ -81,6 +81,7 @@ class LEDGeneratorDrift(LEDGenerator):
         self.n_drift_features = n_drift_features
         self.name = "Led Generator with drift"
 
+        self._numberAttribute = np.zeros((24,), dtype=int)
         for i in range(self._TOTAL_ATTRIBUTES_INCLUDING_NOISE):
             self._numberAttribute[i] = i
 
-- 
2.43.0


From 5950af48f9a3f9ccacf5d01b5428c7ceabd7abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:02 +0000
Subject: [PATCH 15/49] fix: ConceptDriftStream instances shared their default
 streams

The default AGRAWAL generators were created once, when the function was defined, so
two streams built with the defaults consumed each other's samples.
---
 src/skmultiflow/data/concept_drift_stream.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/data/concept_drift_stream.py b/src/skmultiflow/data/concept_drift_stream.py
index 5ee8018..53b4eee 100644
--- a/src/skmultiflow/data/concept_drift_stream.py
+++ b/src/skmultiflow/data/concept_drift_stream.py
@@ -58,14 +58,20 @@ class ConceptDriftStream(Stream):
 
     """
 
-    def __init__(self, stream=AGRAWALGenerator(random_state=112),
-                 drift_stream=AGRAWALGenerator(random_state=112, classification_function=2),
+    def __init__(self, stream=None,
+                 drift_stream=None,
                  position=5000,
                  width=1000,
                  random_state=None,
                  alpha=None):
         super(ConceptDriftStream, self).__init__()
 
+        # The default streams are created here so that instances do not share them
+        if stream is None:
+            stream = AGRAWALGenerator(random_state=112)
+        if drift_stream is None:
+            drift_stream = AGRAWALGenerator(random_state=112, classification_function=2)
+
         self.n_samples = stream.n_samples
         self.n_targets = stream.n_targets
         self.n_features = stream.n_features
-- 
2.43.0


From bd28832ccc934c9dea5a5c0c67b4a4fbc3c3e07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:38 +0000
Subject: [PATCH 16/49] fix: KSWIN did not keep its data parameter and reset
 dropped it

---
 src/skmultiflow/drift_detection/kswin.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/drift_detection/kswin.py b/src/skmultiflow/drift_detection/kswin.py
index f9cf7f3..e8d5b0f 100644
--- a/src/skmultiflow/drift_detection/kswin.py
+++ b/src/skmultiflow/drift_detection/kswin.py
@@ -91,10 +91,8 @@ class KSWIN(BaseDriftDetector):
         if self.window_size < self.stat_size:
             raise ValueError("stat_size must be smaller than window_size")
 
-        if not isinstance(data, np.ndarray) or data is None:
-            self.window = np.array([])
-        else:
-            self.window = data
+        self.data = data
+        self.reset()
 
     def add_element(self, input_value):
         """ Add element to sliding window
@@ -144,5 +142,9 @@ class KSWIN(BaseDriftDetector):
         Resets the change detector parameters.
         """
         self.p_value = 0
-        self.window = np.array([])
+        self.n = 0
+        if not isinstance(self.data, np.ndarray):
+            self.window = np.array([])
+        else:
+            self.window = self.data
         self.change_detected = False
-- 
2.43.0


From 4cbc7163c39d88ac9f7d00d1d939f643a83686e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:38 +0000
Subject: [PATCH 17/49] fix: StreamingRandomPatchesClassifier must keep
 training_method and nominal_attributes as given

---
 .../meta/streaming_random_patches.py          | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index fa256b4..6c33153 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -160,6 +160,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                                                              self._TRAIN_RANDOM_SUBSPACES,
                                                              self._TRAIN_RESAMPLING}))
         self.training_method = training_method
+        self._training_method = training_method
         self.lam = lam
         self.drift_detection_method = drift_detection_method
         self.warning_detection_method = warning_detection_method
@@ -168,7 +169,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         self.disable_background_learner = disable_background_learner
         # Single option (accuracy) for drift detection criteria. Could be extended in the future.
         self.drift_detection_criteria = 'accuracy'
-        self.nominal_attributes = nominal_attributes if nominal_attributes else []
+        self.nominal_attributes = nominal_attributes
         self.random_state = random_state
         # self._random_state is the actual object used internally
         self._random_state = check_random_state(self.random_state)
@@ -231,7 +232,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
             # Train using random subspaces without resampling,
             # i.e. all instances are used for training.
-            if self.training_method == self._TRAIN_RANDOM_SUBSPACES:
+            if self._training_method == self._TRAIN_RANDOM_SUBSPACES:
                 self.ensemble[i].partial_fit(X=X, y=y, classes=classes,
                                              sample_weight=np.asarray([1.]),
                                              n_samples_seen=self._n_samples_seen,
@@ -319,8 +320,9 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         # Select the size of k, which depends on 2 parameters:
         # subspace_size and subspace_mode
         k = self.subspace_size
+        self._training_method = self.training_method
 
-        if self.training_method != self._TRAIN_RESAMPLING:
+        if self._training_method != self._TRAIN_RESAMPLING:
             # This only applies to subspaces and random patches options
             if self.subspace_mode == self._FEATURES_SQRT:
                 k = int(np.round(np.sqrt(n_features)) + 1)
@@ -339,8 +341,8 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         # Generate subspaces. The subspaces is a 2D matrix of shape
         # (n_estimators, k) where each row contains the k feature indices
         # to be used by each estimator.
-        if self.training_method == self._TRAIN_RANDOM_SUBSPACES or \
-                self.training_method == self._TRAIN_RANDOM_PATCHES:
+        if self._training_method == self._TRAIN_RANDOM_SUBSPACES or \
+                self._training_method == self._TRAIN_RANDOM_PATCHES:
             if k != 0 and k < n_features:
                 # For low dimensionality it is better to avoid more than
                 # 1 classifier with the same subspace, thus we generate all
@@ -372,7 +374,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
             # k == 0 or k > n_features (subspace size is larger than the
             # number of features), then default to re-sampling
             else:
-                self.training_method = self._TRAIN_RESAMPLING
+                self._training_method = self._TRAIN_RESAMPLING
 
         # Initialize ensemble members
         self._init_ensemble_members()
@@ -385,16 +387,16 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         performance_evaluator = self._base_performance_evaluator
 
         subspace_indexes = np.arange(self.n_estimators)
-        if self.training_method == self._TRAIN_RANDOM_PATCHES or \
-                self.training_method == self._TRAIN_RANDOM_SUBSPACES:
+        if self._training_method == self._TRAIN_RANDOM_PATCHES or \
+                self._training_method == self._TRAIN_RANDOM_SUBSPACES:
             # Shuffle indexes that match subspaces with members of the ensemble
             self._random_state.shuffle(subspace_indexes)
         for i in range(self.n_estimators):
-            # When self.training_method == self._TRAIN_RESAMPLING
+            # When self._training_method == self._TRAIN_RESAMPLING
             features_indexes = None
             # Otherwise set feature indexes
-            if self.training_method == self._TRAIN_RANDOM_PATCHES or \
-                    self.training_method == self._TRAIN_RANDOM_SUBSPACES:
+            if self._training_method == self._TRAIN_RANDOM_PATCHES or \
+                    self._training_method == self._TRAIN_RANDOM_SUBSPACES:
                 features_indexes = self._subspaces[subspace_indexes[i]]
             self.ensemble.append(base_learner_class(
                 idx_original=i,
-- 
2.43.0


From 854787ae190e3f33e2ad0be8a2e50f885aa88fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:38 +0000
Subject: [PATCH 18/49] fix: LearnPPNSEClassifier must keep the base_estimator
 it is given, so that it can be cloned

---
 src/skmultiflow/meta/learn_nse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 4d93004..2f9f4da 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -108,7 +108,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.X_batch = []
         self.y_batch = []
         self.instance_weights = []
-        self.base_estimator = cp.deepcopy(base_estimator)
+        self.base_estimator = base_estimator
         self.classes = None
 
     @staticmethod
-- 
2.43.0


From ada741a4fca4880694d852566c43a6019af128a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:38 +0000
Subject: [PATCH 19/49] fix: AnomalySineGenerator must keep its shift parameter
 as given

---
 src/skmultiflow/data/anomaly_sine_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/data/anomaly_sine_generator.py b/src/skmultiflow/data/anomaly_sine_generator.py
index cba101a..ca3d580 100644
--- a/src/skmultiflow/data/anomaly_sine_generator.py
+++ b/src/skmultiflow/data/anomaly_sine_generator.py
@@ -56,7 +56,7 @@ class AnomalySineGenerator(Stream):
         if contextual and n_contextual > self.n_samples:
             raise ValueError("n_contextual ({}) can't be larger "
                              "than n_samples ({})".format(n_contextual, self.n_samples))
-        self.shift = abs(shift)
+        self.shift = shift
         self.noise = noise
         self.replace = replace
         self.random_state = random_state
@@ -86,11 +86,11 @@ class AnomalySineGenerator(Stream):
 
         if self.contextual:
             # contextual anomaly indices
-            contextual_anomalies = self._random_state.choice(self.n_samples - self.shift,
+            contextual_anomalies = self._random_state.choice(self.n_samples - abs(self.shift),
                                                              self.n_contextual,
                                                              replace=self.replace)
             # set contextual anomalies
-            contextual_idx = contextual_anomalies + self.shift
+            contextual_idx = contextual_anomalies + abs(self.shift)
             contextual_idx[contextual_idx >= self.n_samples] -= self.n_samples
             self.X[contextual_idx, 1] = self.X[contextual_anomalies, 0]
 
-- 
2.43.0


From f65ee8d236e0156facea73e3320bf54f7fb53a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:38 +0000
Subject: [PATCH 20/49] fix: the default reset failed on parameters without an
 evaluable representation

---
 src/skmultiflow/core/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/core/base.py b/src/skmultiflow/core/base.py
index b9e1d3a..824eac1 100644
--- a/src/skmultiflow/core/base.py
+++ b/src/skmultiflow/core/base.py
@@ -351,9 +351,8 @@ class BaseSKMObject(BaseEstimator):
         """
         # non-optimized default implementation; override if a better
         # method is possible for a given object
-        command = ''.join([line.strip() for line in self.__repr__().split()])
-        command = command.replace(str(self.__class__.__name__), 'self.__init__')
-        exec(command)
+        self.__init__(**self.get_params(deep=False))
+        return self
 
     def get_info(self):
         """ Collects and returns the information about the configuration of the estimator
-- 
2.43.0


From eb26cbdd10df9a81e9d6d4f4fdfdf4c329b0fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:28 +0000
Subject: [PATCH 21/49] fix: partial_fit of four tree learners must return self

---
 src/skmultiflow/trees/extremely_fast_decision_tree.py     | 2 ++
 src/skmultiflow/trees/hoeffding_tree_regressor.py         | 2 ++
 src/skmultiflow/trees/isoup_tree.py                       | 2 ++
 src/skmultiflow/trees/label_combination_hoeffding_tree.py | 3 ++-
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/extremely_fast_decision_tree.py b/src/skmultiflow/trees/extremely_fast_decision_tree.py
index 241684e..dd2ec9c 100755
--- a/src/skmultiflow/trees/extremely_fast_decision_tree.py
+++ b/src/skmultiflow/trees/extremely_fast_decision_tree.py
@@ -223,6 +223,8 @@ class ExtremelyFastDecisionTreeClassifier(HoeffdingTreeClassifier):
                     self._train_weight_seen_by_model += sample_weight[i]
                     self._partial_fit(X[i], y[i], sample_weight[i])
 
+        return self
+
     #  Override _partial_fit
     def _partial_fit(self, X, y, sample_weight):
         """ Trains the model on samples X and corresponding targets y.
diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index fb3a5e1..26bb05b 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -332,6 +332,8 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                     self._train_weight_seen_by_model += sample_weight[i]
                     self._partial_fit(X[i], y[i], sample_weight[i])
 
+        return self
+
     def _partial_fit(self, X, y, sample_weight):
         """Trains the model on samples X and corresponding targets y.
 
diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index 89e442f..e26866c 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -367,6 +367,8 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
                     self._train_weight_seen_by_model += sample_weight[i]
                     self._partial_fit(X[i], y[i], sample_weight[i])
 
+        return self
+
     def _partial_fit(self, X, y, sample_weight):
         """Trains the model on samples X and corresponding targets y.
 
diff --git a/src/skmultiflow/trees/label_combination_hoeffding_tree.py b/src/skmultiflow/trees/label_combination_hoeffding_tree.py
index a02e0d6..2a89e07 100644
--- a/src/skmultiflow/trees/label_combination_hoeffding_tree.py
+++ b/src/skmultiflow/trees/label_combination_hoeffding_tree.py
@@ -177,7 +177,8 @@ class LabelCombinationHoeffdingTreeClassifier(HoeffdingTreeClassifier, MultiOutp
         -------
             self
             """
-        super().partial_fit(X, y, sample_weight=sample_weight)    # Override HT, infer the classes
+        # Override HT, infer the classes
+        return super().partial_fit(X, y, sample_weight=sample_weight)
 
     def predict(self, X):
         """Predicts the label of the X instance(s)
-- 
2.43.0


From 486362a56995d40166fc89258b2e0f26d9faf3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:59 +0000
Subject: [PATCH 22/49] fix: HoeffdingTreeClassifier and
 HoeffdingAdaptiveTreeClassifier.reset kept state

---
 src/skmultiflow/trees/hoeffding_adaptive_tree.py | 3 ++-
 src/skmultiflow/trees/hoeffding_tree.py          | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_adaptive_tree.py b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
index bd39fe0..610ef95 100644
--- a/src/skmultiflow/trees/hoeffding_adaptive_tree.py
+++ b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
@@ -172,10 +172,11 @@ class HoeffdingAdaptiveTreeClassifier(HoeffdingTreeClassifier):
         self._tree_root = None
 
     def reset(self):
+        super().reset()
         self.alternate_trees_cnt = 0
         self.pruned_alternate_trees_cnt = 0
         self.switch_alternate_trees_cnt = 0
-        self._tree_root = None
+        return self
 
     # Override HoeffdingTreeClassifier
     def _partial_fit(self, X, y, sample_weight):
diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index eac6137..b634fde 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -243,6 +243,7 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
         self._byte_size_estimate_overhead_fraction = 1.0
         self._growth_allowed = True
         self._train_weight_seen_by_model = 0.0
+        self.classes = None
 
         return self
 
-- 
2.43.0


From f498df9bc91d0915741110307ae7a11709d318cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:15 +0000
Subject: [PATCH 23/49] fix: reset of the tree regressors kept the target and
 attribute statistics

---
 src/skmultiflow/trees/arf_hoeffding_tree_regressor.py    | 3 ++-
 .../trees/hoeffding_adaptive_tree_regressor.py           | 7 +++++++
 src/skmultiflow/trees/hoeffding_tree_regressor.py        | 9 +++++++++
 src/skmultiflow/trees/isoup_tree.py                      | 8 ++++++++
 4 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py b/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
index 4c49d0b..5ac9cba 100644
--- a/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
@@ -118,7 +118,8 @@ class ARFHoeffdingTreeRegressor(HoeffdingTreeRegressor):
                                                       random_state=random_state)
 
     def reset(self):
-        super().reset()
+        # The forest resets its trees upon drift: the statistics used to normalise the data are kept
+        super(HoeffdingTreeRegressor, self).reset()
         self._random_state = check_random_state(self.random_state)
 
     def new_instance(self):
diff --git a/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py b/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
index fa035e0..278d93a 100644
--- a/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
@@ -159,6 +159,13 @@ class HoeffdingAdaptiveTreeRegressor(HoeffdingTreeRegressor):
         self.switch_alternate_trees_cnt = 0
         self.pruned_alternate_trees_cnt = 0
 
+    def reset(self):
+        super().reset()
+        self.alternate_trees_cnt = 0
+        self.switch_alternate_trees_cnt = 0
+        self.pruned_alternate_trees_cnt = 0
+        return self
+
     def _new_learning_node(self, initial_stats=None, parent_node=None,
                            is_active=True):
         """Create a new learning node.
diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index 26bb05b..324ec53 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -190,6 +190,15 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
         self.sum_of_attribute_squares = []
         self.random_state = random_state
 
+    def reset(self):
+        super().reset()
+        self.samples_seen = 0
+        self.sum_of_values = 0.0
+        self.sum_of_squares = 0.0
+        self.sum_of_attribute_values = []
+        self.sum_of_attribute_squares = []
+        return self
+
     @property
     def leaf_prediction(self):
         return self._leaf_prediction
diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index e26866c..51d451f 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -197,6 +197,14 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
         # To add the n_targets property once
         self._n_targets_set = False
 
+    def reset(self):
+        super().reset()
+        self.examples_seen = 0
+        self.sum_of_attribute_values = 0.0
+        self.sum_of_attribute_squares = 0.0
+        self._n_targets_set = False
+        return self
+
     @property
     def leaf_prediction(self):
         return self._leaf_prediction
-- 
2.43.0


From a8da6cef9ebfeb336b29ca92ef2e183175113e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:34 +0000
Subject: [PATCH 24/49] fix: KNNClassifier.reset kept the known classes

---
 src/skmultiflow/lazy/knn_classifier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skmultiflow/lazy/knn_classifier.py b/src/skmultiflow/lazy/knn_classifier.py
index ef3d1cd..2f9a4e0 100644
--- a/src/skmultiflow/lazy/knn_classifier.py
+++ b/src/skmultiflow/lazy/knn_classifier.py
@@ -92,6 +92,10 @@ class KNNClassifier(BaseNeighbors, ClassifierMixin):
                          metric=metric)
         self.classes = []
 
+    def reset(self):
+        self.classes = []
+        return super().reset()
+
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially (incrementally) fit the model.
 
-- 
2.43.0


From 2a970d59be1f6c8cf267aa706426d4bbeabea5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:58 +0000
Subject: [PATCH 25/49] fix: reset of the meta learners kept the known classes
 and other training state

---
 src/skmultiflow/meta/adaptive_random_forests.py   | 1 +
 src/skmultiflow/meta/batch_incremental.py         | 1 +
 src/skmultiflow/meta/classifier_chains.py         | 1 +
 src/skmultiflow/meta/learn_nse.py                 | 2 ++
 src/skmultiflow/meta/learn_pp.py                  | 1 +
 src/skmultiflow/meta/leverage_bagging.py          | 1 +
 src/skmultiflow/meta/online_adac2.py              | 1 +
 src/skmultiflow/meta/online_boosting.py           | 1 +
 src/skmultiflow/meta/online_csb2.py               | 1 +
 src/skmultiflow/meta/online_rus_boost.py          | 1 +
 src/skmultiflow/meta/online_smote_bagging.py      | 1 +
 src/skmultiflow/meta/online_under_over_bagging.py | 1 +
 src/skmultiflow/meta/oza_bagging.py               | 1 +
 src/skmultiflow/meta/oza_bagging_adwin.py         | 1 +
 src/skmultiflow/meta/regressor_chains.py          | 1 +
 src/skmultiflow/meta/streaming_random_patches.py  | 2 ++
 16 files changed, 18 insertions(+)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index f8d24b6..fa64381 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -407,6 +407,7 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
         self.ensemble = None
         self.instances_seen = 0
         self._train_weight_seen_by_model = 0.0
+        self.classes = None
         self._random_state = check_random_state(self.random_state)
 
     def _get_votes_for_instance(self, X):
diff --git a/src/skmultiflow/meta/batch_incremental.py b/src/skmultiflow/meta/batch_incremental.py
index bcf7023..ac3b512 100644
--- a/src/skmultiflow/meta/batch_incremental.py
+++ b/src/skmultiflow/meta/batch_incremental.py
@@ -196,4 +196,5 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
         self.i = -1
         self.X_batch = None
         self.y_batch = None
+        self.sample_weight = None
         return self
diff --git a/src/skmultiflow/meta/classifier_chains.py b/src/skmultiflow/meta/classifier_chains.py
index c221c61..ece9759 100644
--- a/src/skmultiflow/meta/classifier_chains.py
+++ b/src/skmultiflow/meta/classifier_chains.py
@@ -237,6 +237,7 @@ class ClassifierChain(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, MultiO
         return Y
 
     def reset(self):
+        self.chain = None
         self.__configure()
         return self
 
diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 2f9f4da..34d9f2b 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -351,3 +351,5 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.wkts = []
         self.X_batch = []
         self.y_batch = []
+        self.instance_weights = []
+        self.classes = None
diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 2975e8e..feffcc0 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -132,6 +132,7 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.ensemble_weights = []
         self.X_batch = []
         self.y_batch = []
+        self.classes = None
         self.random = check_random_state(self.random_state)
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
diff --git a/src/skmultiflow/meta/leverage_bagging.py b/src/skmultiflow/meta/leverage_bagging.py
index a7a917a..c6e8f3f 100644
--- a/src/skmultiflow/meta/leverage_bagging.py
+++ b/src/skmultiflow/meta/leverage_bagging.py
@@ -468,5 +468,6 @@ class LeveragingBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorM
         LeveragingBaggingClassifier
             self
         """
+        self.matrix_codes = None
         self.__configure()
         return self
diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 8933099..606a82b 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -160,6 +160,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.werr = np.zeros(self.actual_n_estimators)
 
     def reset(self):
+        self.classes = None
         self.__configure()
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index b053a06..46c7209 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -149,6 +149,7 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         self.epsilon = np.zeros(self.actual_n_estimators)
 
     def reset(self):
+        self.classes = None
         self.__configure()
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index be0979f..319fc1b 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -154,6 +154,7 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.epsilon = np.zeros(self.actual_n_estimators)
 
     def reset(self):
+        self.classes = None
         self.__configure()
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 537b26b..16afeec 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -158,6 +158,7 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         self.n_neg = 0
 
     def reset(self):
+        self.classes = None
         self.__configure()
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 0e5a71c..bcdf86d 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -140,6 +140,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
         self.pos_samples = []
 
     def reset(self):
+        self.classes = None
         self.__configure()
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 7667b8d..45ff507 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -144,6 +144,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         self._random_state = check_random_state(self.random_state)
 
     def reset(self):
+        self.classes = None
         self.__configure()
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
diff --git a/src/skmultiflow/meta/oza_bagging.py b/src/skmultiflow/meta/oza_bagging.py
index fece39d..5f378e6 100644
--- a/src/skmultiflow/meta/oza_bagging.py
+++ b/src/skmultiflow/meta/oza_bagging.py
@@ -120,6 +120,7 @@ class OzaBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self._random_state = check_random_state(self.random_state)
 
     def reset(self):
+        self.classes = None
         self.__configure()
         return self
 
diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index 7d824a3..f456c04 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -100,6 +100,7 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
         self.adwin_ensemble = [cp.deepcopy(ADWIN()) for _ in range(self.actual_n_estimators)]
 
     def reset(self):
+        super().reset()
         self.__configure()
         return self
 
diff --git a/src/skmultiflow/meta/regressor_chains.py b/src/skmultiflow/meta/regressor_chains.py
index 1ecab50..c885b45 100644
--- a/src/skmultiflow/meta/regressor_chains.py
+++ b/src/skmultiflow/meta/regressor_chains.py
@@ -175,6 +175,7 @@ class RegressorChain(BaseSKMObject, RegressorMixin, MetaEstimatorMixin, MultiOut
         return Y[:, np.argsort(self.chain)]
 
     def reset(self):
+        self.chain = None
         self.__configure()
         return self
 
diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index 6c33153..a3fdc38 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -415,6 +415,8 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
     def reset(self):
         self.ensemble = None
+        self._subspaces = None
+        self._training_method = self.training_method
         self._n_samples_seen = 0
         self._random_state = check_random_state(self.random_state)
 
-- 
2.43.0


From 14e63b461989cec6f0208c16485c8972ecb54875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:58 +0000
Subject: [PATCH 26/49] fix: WindowMultiTargetRegressionMeasurements.reset kept
 the number of targets

---
 src/skmultiflow/metrics/measure_collection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/metrics/measure_collection.py b/src/skmultiflow/metrics/measure_collection.py
index 5cc8c2e..cf46c17 100644
--- a/src/skmultiflow/metrics/measure_collection.py
+++ b/src/skmultiflow/metrics/measure_collection.py
@@ -1380,6 +1380,7 @@ class WindowMultiTargetRegressionMeasurements(object):
         self.window_size = window_size
 
     def reset(self):
+        self.n_targets = 0
         self.total_square_error = 0.0
         self.average_error = 0.0
         self.last_true_label = None
-- 
2.43.0


From fcb2225b84bb553a89cc54838157d5e6354049be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:32 +0000
Subject: [PATCH 27/49] fix: restart of ConceptDriftStream and
 TemporalDataStream kept the last sample

---
 src/skmultiflow/data/concept_drift_stream.py | 2 ++
 src/skmultiflow/data/temporal_data_stream.py | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/src/skmultiflow/data/concept_drift_stream.py b/src/skmultiflow/data/concept_drift_stream.py
index 53b4eee..ae65a1d 100644
--- a/src/skmultiflow/data/concept_drift_stream.py
+++ b/src/skmultiflow/data/concept_drift_stream.py
@@ -176,5 +176,7 @@ class ConceptDriftStream(Stream):
     def restart(self):
         self._random_state = check_random_state(self.random_state)
         self.sample_idx = 0
+        self.current_sample_x = None
+        self.current_sample_y = None
         self.stream.restart()
         self.drift_stream.restart()
diff --git a/src/skmultiflow/data/temporal_data_stream.py b/src/skmultiflow/data/temporal_data_stream.py
index 5ebdebc..78d4119 100644
--- a/src/skmultiflow/data/temporal_data_stream.py
+++ b/src/skmultiflow/data/temporal_data_stream.py
@@ -148,6 +148,13 @@ class TemporalDataStream(DataStream):
                 raise TypeError("'time' is None, data cannot be ordered.")
         super().__init__(data, y, target_idx, n_targets, cat_features, name, allow_nan)
 
+    def restart(self):
+        """ Restarts the stream. """
+        super().restart()
+        self.current_sample_time = None
+        self.current_sample_delay = None
+        self.current_sample_weight = None
+
     def next_sample(self, batch_size=1):
         """
         Get next sample.
-- 
2.43.0


From 26dd6d240cca5aba64e994d16e9056a5f4b5940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:07 +0000
Subject: [PATCH 28/49] fix: EvaluatePrequentialDelayed trained delayed samples
 with the weights of another batch

---
 src/skmultiflow/data/time_manager.py          | 318 +++++++++---------
 .../evaluate_prequential_delayed.py           |   6 +-
 2 files changed, 165 insertions(+), 159 deletions(-)

diff --git a/src/skmultiflow/data/time_manager.py b/src/skmultiflow/data/time_manager.py
index da38ba5..9a3a8f4 100644
--- a/src/skmultiflow/data/time_manager.py
+++ b/src/skmultiflow/data/time_manager.py
@@ -1,156 +1,162 @@
-import numpy as np
-import pandas as pd
-
-
-class TimeManager(object):
-    """ TimeManager
-
-    Manage instances that are related to a timestamp and a delay.
-
-    Parameters
-    ----------
-    timestamp: numpy.datetime64
-        Current timestamp of the stream. This timestamp is always
-        updated as the stream is processed to simulate when
-        the labels will be available for each sample.
-
-    """
-
-    _COLUMN_NAMES = ["X", "y_true", "y_pred", "sample_weight", "arrival_time", "available_time"]
-    _USE_SAMPLE_WEIGHT = True
-
-    def __init__(self, timestamp):
-        # get initial timestamp
-        self.timestamp = timestamp
-        # create dataframe to save time data
-        # X = features
-        # y_true = true label/target
-        # y_pred = predicted label/target for each model being evaluated
-        # arrival_time = arrival timestamp of the sample
-        # available_time = timestamp when the sample label will be available
-        self.queue = pd.DataFrame(columns=self._COLUMN_NAMES)
-        # transform queue into datetime if timestamps are not int
-        if isinstance(self.timestamp, int):
-            self.queue['arrival_time'] = pd.to_datetime(self.queue['arrival_time'])
-            self.queue['available_time'] = pd.to_datetime(self.queue['available_time'])
-
-    def _sort_queue(self):
-        # sort values by available_time
-        self.queue = self.queue.sort_values(by='available_time')
-        self.queue = self.queue.reset_index(drop=True)
-
-    def _cleanup_samples(self, batch_size):
-        # check if has batch_size samples to be removed
-        if self.queue.shape[0] - batch_size >= 0:
-            # drop samples that were already used
-            self.queue = self.queue.iloc[batch_size:]
-            # reset indexes
-            self.queue = self.queue.reset_index(drop=True)
-        else:
-            # drop all samples
-            self.queue = self.queue.iloc[0:0]
-
-    def update_timestamp(self, timestamp):
-        """ update_timestamp
-
-        Update current timestamp of the stream.
-
-        Parameters
-        ----------
-        timestamp: datetime64
-            Current timestamp of the stream. This timestamp is always
-            updated as the stream is processed to simulate when
-            the labels will be available for each sample.
-
-        """
-
-        self.timestamp = timestamp
-
-    def get_available_samples(self):
-        """ get_available_samples
-
-        Get available samples of the stream, i.e., samples that have
-        their labels available (available_time <= timestamp).
-
-        Returns
-        -------
-        tuple
-            A tuple containing the data, their true labels and predictions.
-
-        """
-
-        # get samples that have label available
-        samples = self.queue[self.queue['available_time'] <= self.timestamp]
-        # remove these samples from queue
-        self.queue = self.queue[self.queue['available_time'] > self.timestamp]
-        # get X, y_true and y_pred
-        X = np.array(samples["X"].values.tolist())
-        y_true = np.array(samples["y_true"].values.tolist())
-        y_pred = np.array(samples["y_pred"].values.tolist())
-        # return X, y_true and y_pred for the dequeued samples
-        return X, y_true, y_pred
-
-    def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
-        # check if weight is None to create a list
-        if sample_weight is None:
-            # set _sample_weight as False, indicating that there is no weight
-            self._USE_SAMPLE_WEIGHT = False
-            sample_weight = np.full(X.shape[0], None)   # noqa
-        # create daraframe for current samples
-        frame = pd.DataFrame(list(zip(X, y_true, y_pred, sample_weight,
-                                      arrival_time, available_time)),
-                             columns=self._COLUMN_NAMES)
-        # append new data to queue
-        self.queue = self.queue.append(frame)
-        # sort queue
-        self._sort_queue()
-
-    def has_more_samples(self):
-        """ Checks if queue has more samples.
-
-        Returns
-        -------
-        Boolean
-            True if queue has more samples.
-
-        """
-
-        return self.queue.shape[0] > 0
-
-    def next_sample(self, batch_size=1):
-        """ Returns next sample from the queue.
-
-        If there is enough instances to supply at least batch_size samples, those
-        are returned. Otherwise, the remaining are returned.
-
-        Parameters
-        ----------
-        batch_size: int (optional, default=1)
-            The number of instances to return.
-
-        Returns
-        -------
-        tuple or tuple list
-            Returns the next batch_size instances.
-            For general purposes the return can be treated as a numpy.ndarray.
-
-        """
-        if self.queue.shape[0] - batch_size >= 0:
-            samples = self.queue[:batch_size]
-        else:
-            samples = self.queue
-        # get X
-        X = np.array(samples["X"].values.tolist())
-        # get y_true
-        y_true = np.array(samples["y_true"].values.tolist())
-        # get y_pred
-        y_pred = np.array(samples["y_pred"].values.tolist())
-        # check if sample_weight are being used
-        if self._USE_SAMPLE_WEIGHT:
-            sample_weight = np.array(samples["weight"].values.tolist())
-        else:
-            sample_weight = None
-        # remove samples from queue
-        self._cleanup_samples(batch_size)
-        # return X, y_true, y_pred, and weight for the dequeued samples
-        return X, y_true, y_pred, sample_weight
+import numpy as np
+import pandas as pd
+
+
+class TimeManager(object):
+    """ TimeManager
+
+    Manage instances that are related to a timestamp and a delay.
+
+    Parameters
+    ----------
+    timestamp: numpy.datetime64
+        Current timestamp of the stream. This timestamp is always
+        updated as the stream is processed to simulate when
+        the labels will be available for each sample.
+
+    """
+
+    _COLUMN_NAMES = ["X", "y_true", "y_pred", "sample_weight", "arrival_time", "available_time"]
+    _USE_SAMPLE_WEIGHT = True
+
+    def __init__(self, timestamp):
+        # get initial timestamp
+        self.timestamp = timestamp
+        # create dataframe to save time data
+        # X = features
+        # y_true = true label/target
+        # y_pred = predicted label/target for each model being evaluated
+        # arrival_time = arrival timestamp of the sample
+        # available_time = timestamp when the sample label will be available
+        self.queue = pd.DataFrame(columns=self._COLUMN_NAMES)
+        # transform queue into datetime if timestamps are not int
+        if isinstance(self.timestamp, int):
+            self.queue['arrival_time'] = pd.to_datetime(self.queue['arrival_time'])
+            self.queue['available_time'] = pd.to_datetime(self.queue['available_time'])
+
+    def _sort_queue(self):
+        # sort values by available_time
+        self.queue = self.queue.sort_values(by='available_time')
+        self.queue = self.queue.reset_index(drop=True)
+
+    def _cleanup_samples(self, batch_size):
+        # check if has batch_size samples to be removed
+        if self.queue.shape[0] - batch_size >= 0:
+            # drop samples that were already used
+            self.queue = self.queue.iloc[batch_size:]
+            # reset indexes
+            self.queue = self.queue.reset_index(drop=True)
+        else:
+            # drop all samples
+            self.queue = self.queue.iloc[0:0]
+
+    def update_timestamp(self, timestamp):
+        """ update_timestamp
+
+        Update current timestamp of the stream.
+
+        Parameters
+        ----------
+        timestamp: datetime64
+            Current timestamp of the stream. This timestamp is always
+            updated as the stream is processed to simulate when
+            the labels will be available for each sample.
+
+        """
+
+        self.timestamp = timestamp
+
+    def get_available_samples(self):
+        """ get_available_samples
+
+        Get available samples of the stream, i.e., samples that have
+        their labels available (available_time <= timestamp).
+
+        Returns
+        -------
+        tuple
+            A tuple containing the data, their true labels, predictions and
+            weights (None if the samples have no weight).
+
+        """
+
+        # get samples that have label available
+        samples = self.queue[self.queue['available_time'] <= self.timestamp]
+        # remove these samples from queue
+        self.queue = self.queue[self.queue['available_time'] > self.timestamp]
+        # get X, y_true and y_pred
+        X = np.array(samples["X"].values.tolist())
+        y_true = np.array(samples["y_true"].values.tolist())
+        y_pred = np.array(samples["y_pred"].values.tolist())
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
+        else:
+            sample_weight = None
+        # return X, y_true, y_pred and weight for the dequeued samples
+        return X, y_true, y_pred, sample_weight
+
+    def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
+        # check if weight is None to create a list
+        if sample_weight is None:
+            # set _sample_weight as False, indicating that there is no weight
+            self._USE_SAMPLE_WEIGHT = False
+            sample_weight = np.full(X.shape[0], None)   # noqa
+        # create daraframe for current samples
+        frame = pd.DataFrame(list(zip(X, y_true, y_pred, sample_weight,
+                                      arrival_time, available_time)),
+                             columns=self._COLUMN_NAMES)
+        # append new data to queue
+        self.queue = self.queue.append(frame)
+        # sort queue
+        self._sort_queue()
+
+    def has_more_samples(self):
+        """ Checks if queue has more samples.
+
+        Returns
+        -------
+        Boolean
+            True if queue has more samples.
+
+        """
+
+        return self.queue.shape[0] > 0
+
+    def next_sample(self, batch_size=1):
+        """ Returns next sample from the queue.
+
+        If there is enough instances to supply at least batch_size samples, those
+        are returned. Otherwise, the remaining are returned.
+
+        Parameters
+        ----------
+        batch_size: int (optional, default=1)
+            The number of instances to return.
+
+        Returns
+        -------
+        tuple or tuple list
+            Returns the next batch_size instances.
+            For general purposes the return can be treated as a numpy.ndarray.
+
+        """
+        if self.queue.shape[0] - batch_size >= 0:
+            samples = self.queue[:batch_size]
+        else:
+            samples = self.queue
+        # get X
+        X = np.array(samples["X"].values.tolist())
+        # get y_true
+        y_true = np.array(samples["y_true"].values.tolist())
+        # get y_pred
+        y_pred = np.array(samples["y_pred"].values.tolist())
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
+        else:
+            sample_weight = None
+        # remove samples from queue
+        self._cleanup_samples(batch_size)
+        # return X, y_true, y_pred, and weight for the dequeued samples
+        return X, y_true, y_pred, sample_weight
diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index 61c07ed..f2e7a09 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -436,8 +436,8 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 self.time_manager.update_timestamp(arrival_time[-1])
 
                 # get delayed samples to update model before predicting a new batch
-                X_delayed, y_true_delayed, y_pred_delayed = self.time_manager.\
-                    get_available_samples()
+                X_delayed, y_true_delayed, y_pred_delayed, sample_weight_delayed = \
+                    self.time_manager.get_available_samples()
 
                 # transpose prediction matrix to model-sample again
                 y_pred_delayed = self._transform_predictions_model(y_pred_delayed)
@@ -448,7 +448,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 # before getting new samples, update classifiers with samples
                 # that are already available
                 self._update_classifiers(X=X_delayed, y=y_true_delayed,
-                                         sample_weight=sample_weight)
+                                         sample_weight=sample_weight_delayed)
 
                 # predict samples and get predictions
                 y_pred = self._predict_samples(X)
-- 
2.43.0


From 510187744492c519c958811e8e1667650326e0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:07 +0000
Subject: [PATCH 29/49] fix: EvaluatePrequentialDelayed failed without
 pre-training

---
 src/skmultiflow/evaluation/evaluate_prequential_delayed.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index f2e7a09..2bc9934 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -390,6 +390,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
             self.actual_max_samples = self.max_samples
 
         self.first_run = True
+        self.time_manager = None
         if self.pretrain_size > 0:
             print('Pre-training on {} sample(s).'.format(self.pretrain_size))
 
@@ -433,6 +434,8 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                     next_sample(self.batch_size)
 
                 # update current timestamp
+                if self.time_manager is None:
+                    self.time_manager = TimeManager(arrival_time[-1])
                 self.time_manager.update_timestamp(arrival_time[-1])
 
                 # get delayed samples to update model before predicting a new batch
@@ -468,7 +471,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
 
         # evaluate remaining samples in the delayed_queue
         # iterate over delay_queue while it has samples according to batch_size
-        while self.time_manager.has_more_samples():
+        while self.time_manager is not None and self.time_manager.has_more_samples():
             # get current samples to process
             X_delayed, y_true_delayed, y_pred_delayed, sample_weight = self.time_manager.\
                 next_sample(self.batch_size)
-- 
2.43.0


From 9f081b762e1c70e4107eb118db9053cc8ae59e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:23 +0000
Subject: [PATCH 30/49] fix: evaluation data buffer declared DATA_POINTS
 predictions under another name

_init_metrics declared 'prediction' while _update_metrics and the visualizer
use 'predictions', so that the declared entry stayed None and the one in use
was not cleared for a new sample.
---
 src/skmultiflow/evaluation/base_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/evaluation/base_evaluator.py b/src/skmultiflow/evaluation/base_evaluator.py
index a3f4a14..0548c72 100644
--- a/src/skmultiflow/evaluation/base_evaluator.py
+++ b/src/skmultiflow/evaluation/base_evaluator.py
@@ -308,7 +308,7 @@ class StreamEvaluator(BaseSKMObject, metaclass=ABCMeta):
             if metric == constants.TRUE_VS_PREDICTED:
                 data_ids = [constants.Y_TRUE, constants.Y_PRED]
             elif metric == constants.DATA_POINTS:
-                data_ids = ['X', 'target_values', 'prediction']
+                data_ids = ['X', 'target_values', 'predictions']
             elif metric == constants.RUNNING_TIME:
                 data_ids = ['training_time', 'testing_time', 'total_running_time']
             elif metric == constants.MODEL_SIZE:
-- 
2.43.0


From ab93272b4515c7ffef92e753d7bef6b1e809d7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:23 +0000
Subject: [PATCH 31/49] fix: evaluation_summary left out the geometric mean

GMEAN is an accepted classification metric and was tracked during the
evaluation, but the summary did not report it.
---
 src/skmultiflow/evaluation/base_evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skmultiflow/evaluation/base_evaluator.py b/src/skmultiflow/evaluation/base_evaluator.py
index 0548c72..e211c2f 100644
--- a/src/skmultiflow/evaluation/base_evaluator.py
+++ b/src/skmultiflow/evaluation/base_evaluator.py
@@ -710,6 +710,9 @@ class StreamEvaluator(BaseSKMObject, metaclass=ABCMeta):
                                                      self._data_buffer.get_data(
                                                          metric_id=constants.F1_SCORE,
                                                          data_id=constants.MEAN)[i]))
+            if constants.GMEAN in self.metrics:
+                print('{} - GMean: {:.4f}'.format(self.model_names[i], self._data_buffer.get_data(
+                    metric_id=constants.GMEAN, data_id=constants.MEAN)[i]))
             if constants.HAMMING_SCORE in self.metrics:
                 print('{} - Hamming score: {:.4f}'.format(self.model_names[i],
                                                           self._data_buffer.get_data(
-- 
2.43.0


From 8c55c9ae59606d0108121e21c7e4dc209d37c31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:23 +0000
Subject: [PATCH 32/49] fix: online ensembles trained one sample with the
 weights of the whole batch

OzaBagging and the online bagging/boosting variants pass their base
estimators one sample at a time, but passed all of sample_weight along, so
that weighted batches of more than one sample failed ('Inconsistent number of
instances and weights') or were weighted wrongly.
---
 src/skmultiflow/meta/online_adac2.py              |  4 +++-
 src/skmultiflow/meta/online_boosting.py           |  4 +++-
 src/skmultiflow/meta/online_csb2.py               |  4 +++-
 src/skmultiflow/meta/online_rus_boost.py          |  4 +++-
 src/skmultiflow/meta/online_smote_bagging.py      | 12 +++++++++---
 src/skmultiflow/meta/online_under_over_bagging.py |  4 +++-
 src/skmultiflow/meta/oza_bagging.py               |  4 +++-
 7 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 606a82b..9c1ff8d 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -229,7 +229,9 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else [sample_weight[j]])
                     if self.ensemble[i].predict([X[j]])[0] == 1 and y[j] == 1:
                         self.lam_tp[i] += self.cost_positive * lam
                         self.wacc[i] = (self.lam_tp[i] + self.lam_tn[i]) / self.lam_sum[i]
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index 46c7209..3b248e2 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -215,7 +215,9 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else [sample_weight[j]])
                     if self.ensemble[i].predict([X[j]])[0] == y[j]:
                         self.lam_sc[i] += lam
                         self.epsilon[i] = self.lam_sw[i] / (self.lam_sw[i] + self.lam_sc[i])
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index 319fc1b..17a6230 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -222,7 +222,9 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else [sample_weight[j]])
                     if self.ensemble[i].predict([X[j]])[0] == y[j]:
                         self.epsilon[i] = self.lam_sw[i] / self.lam_sum[i]
                         self.werr[i] = (self.lam_fp[i] + self.lam_fn[i]) / self.lam_sum[i]
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 16afeec..c7c6634 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -260,7 +260,9 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                 k = self._random_state.poisson(lam_rus)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else [sample_weight[j]])
                 if self.ensemble[i].predict([X[j]])[0] == y[j]:
                     self.lam_sc[i] += lam
                     self.epsilon[i] = (self.lam_sw[i]) / (self.lam_sc[i] + self.lam_sw[i])
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index bcdf86d..0677f86 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -213,18 +213,24 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
                     k = self._random_state.poisson(lam)
                     if k > 0:
                         for b in range(k):
-                            self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit(
+                                [X[j]], [y[j]], classes,
+                                None if sample_weight is None else [sample_weight[j]])
                     k_smote = self._random_state.poisson(lam_smote)
 
                     if k_smote > 0:
                         for b in range(k_smote):
                             x_smote = self.online_smote()
-                            self.ensemble[i].partial_fit([x_smote], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit(
+                                [x_smote], [y[j]], classes,
+                                None if sample_weight is None else [sample_weight[j]])
                 else:
                     k = self._random_state.poisson(lam)
                     if k > 0:
                         for b in range(k):
-                            self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit(
+                                [X[j]], [y[j]], classes,
+                                None if sample_weight is None else [sample_weight[j]])
 
                 if self.drift_detection:
                     try:
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 45ff507..e25e402 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -211,7 +211,9 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else [sample_weight[j]])
 
                 if self.drift_detection:
                     try:
diff --git a/src/skmultiflow/meta/oza_bagging.py b/src/skmultiflow/meta/oza_bagging.py
index 5f378e6..c2daff1 100644
--- a/src/skmultiflow/meta/oza_bagging.py
+++ b/src/skmultiflow/meta/oza_bagging.py
@@ -186,7 +186,9 @@ class OzaBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 k = self._random_state.poisson()
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else [sample_weight[j]])
         return self
 
     def __adjust_ensemble_size(self):
-- 
2.43.0


From 01bd1946474575160b319604cd74645193a325bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:23 +0000
Subject: [PATCH 33/49] fix: expert ensembles trained one sample with the
 weights of the whole batch

---
 src/skmultiflow/meta/additive_expert_ensemble.py  | 5 ++++-
 src/skmultiflow/meta/dynamic_weighted_majority.py | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index 8d35156..ebcd4f9 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -151,7 +151,10 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
             self
         """
         for i in range(len(X)):
-            self.fit_single_sample(X[i:i + 1, :], y[i:i + 1], classes, sample_weight)
+            self.fit_single_sample(
+                X[i:i + 1, :], y[i:i + 1], classes,
+                None if sample_weight is None else sample_weight[i:i + 1]
+            )
         return self
 
     def predict(self, X):
diff --git a/src/skmultiflow/meta/dynamic_weighted_majority.py b/src/skmultiflow/meta/dynamic_weighted_majority.py
index b2db81a..c7817bb 100644
--- a/src/skmultiflow/meta/dynamic_weighted_majority.py
+++ b/src/skmultiflow/meta/dynamic_weighted_majority.py
@@ -148,7 +148,8 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
         """
         for i in range(len(X)):
             self.fit_single_sample(
-                X[i:i + 1, :], y[i:i + 1], classes, sample_weight
+                X[i:i + 1, :], y[i:i + 1], classes,
+                None if sample_weight is None else sample_weight[i:i + 1]
             )
         return self
 
-- 
2.43.0


From 46356659321b62d34240e2cf5d06c0501ff51bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:23 +0000
Subject: [PATCH 34/49] fix: ExtremelyFastDecisionTreeClassifier gave every
 sample the weight of the first

get_dimensions returns one row for a one-dimensional array, so the weights of
any batch of more than one sample were replaced by the first one. Check their
number as HoeffdingTreeClassifier does.
---
 src/skmultiflow/trees/extremely_fast_decision_tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/trees/extremely_fast_decision_tree.py b/src/skmultiflow/trees/extremely_fast_decision_tree.py
index dd2ec9c..78fa4fc 100755
--- a/src/skmultiflow/trees/extremely_fast_decision_tree.py
+++ b/src/skmultiflow/trees/extremely_fast_decision_tree.py
@@ -212,12 +212,12 @@ class ExtremelyFastDecisionTreeClassifier(HoeffdingTreeClassifier):
         if self.classes is None and classes is not None:
             self.classes = classes
         if y is not None:
-            if sample_weight is None:
-                sample_weight = np.array([1.0])
             row_cnt, _ = get_dimensions(X)
-            wrow_cnt, _ = get_dimensions(sample_weight)
-            if row_cnt != wrow_cnt:
-                sample_weight = [sample_weight[0]] * row_cnt
+            if sample_weight is None:
+                sample_weight = np.ones(row_cnt)
+            if row_cnt != len(sample_weight):
+                raise ValueError('Inconsistent number of instances ({}) and weights ({}).'.
+                                 format(row_cnt, len(sample_weight)))
             for i in range(row_cnt):
                 if sample_weight[i] != 0.0:
                     self._train_weight_seen_by_model += sample_weight[i]
-- 
2.43.0


From 7dfc27da2b75ef339ced05aab2a497c446ebe08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:23 +0000
Subject: [PATCH 35/49] fix: BatchIncrementalClassifier fitted its window with
 the weights of the last batch

The weights collected with the window were not used, and the truth value of a
weight array was tested, which fails for more than one sample.
---
 src/skmultiflow/meta/batch_incremental.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/batch_incremental.py b/src/skmultiflow/meta/batch_incremental.py
index ac3b512..13c54a0 100644
--- a/src/skmultiflow/meta/batch_incremental.py
+++ b/src/skmultiflow/meta/batch_incremental.py
@@ -120,7 +120,8 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
             # TODO not very pythonic at the moment
             self.X_batch[self.i] = X[n]
             self.y_batch[self.i] = y[n]
-            self.sample_weight[self.i] = sample_weight[n] if sample_weight else 1.0
+            self.sample_weight[self.i] = sample_weight[n] \
+                if sample_weight is not None else 1.0
 
             self.i = self.i + 1
             if self.i == self.window_size:
@@ -131,7 +132,8 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
                 h = cp.deepcopy(self.base_estimator)
                 # Train it
                 if 'sample_weight' in signature(h.fit).parameters:
-                    h.fit(X=self.X_batch, y=self.y_batch.astype(int), sample_weight=sample_weight)
+                    h.fit(X=self.X_batch, y=self.y_batch.astype(int),
+                          sample_weight=self.sample_weight)
                 else:
                     h.fit(X=self.X_batch, y=self.y_batch.astype(int))
                 # Add it
-- 
2.43.0


From 82b241640f339651372127d660fb5fe3b783b545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:33 +0000
Subject: [PATCH 36/49] fix: KNNRegressor gave every row of a batch the same
 prediction

Each prediction was the aggregate over the neighbours of all rows of X.
---
 src/skmultiflow/lazy/knn_regressor.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/skmultiflow/lazy/knn_regressor.py b/src/skmultiflow/lazy/knn_regressor.py
index 0d999d4..941c7d3 100644
--- a/src/skmultiflow/lazy/knn_regressor.py
+++ b/src/skmultiflow/lazy/knn_regressor.py
@@ -148,11 +148,7 @@ class KNNRegressor(BaseNeighbors, RegressorMixin):
             sample in X.
 
         """
-        r, c = get_dimensions(X)
-        predictions = np.zeros(r)
-        for i in range(r):
-            predictions[i] = self._predict(X)
-        return predictions
+        return self._predict(X)
 
     def _predict(self, X):
         r, c = get_dimensions(X)
@@ -162,11 +158,11 @@ class KNNRegressor(BaseNeighbors, RegressorMixin):
             return y_pred
 
         _, neighbors_idx = self._get_neighbors(X)
-        neighbors_val = self.data_window.targets_buffer[neighbors_idx]
+        neighbors_val = self.data_window.targets_buffer[neighbors_idx].reshape(r, -1)
         if self.aggregation_method == self._MEAN:
-            y_pred = np.mean(neighbors_val)
+            y_pred = np.mean(neighbors_val, axis=1)
         else:   # self.aggregation_method == self._MEDIAN
-            y_pred = np.median(neighbors_val)
+            y_pred = np.median(neighbors_val, axis=1)
 
         return y_pred
 
-- 
2.43.0


From dd18be4b23ad9de7bc7fb0bbe75f29b001363744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:33 +0000
Subject: [PATCH 37/49] fix: AdaptiveRandomForestRegressor.predict dropped its
 default result

---
 src/skmultiflow/meta/adaptive_random_forest_regressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forest_regressor.py b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
index 3155372..24b4781 100644
--- a/src/skmultiflow/meta/adaptive_random_forest_regressor.py
+++ b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
@@ -337,7 +337,7 @@ class AdaptiveRandomForestRegressor(RegressorMixin, AdaptiveRandomForestClassifi
         elif self.aggregation_method == self._MEDIAN:
             return np.median(predictions, axis=0)
         else:
-            np.zeros(get_dimensions(X)[0])
+            return np.zeros(get_dimensions(X)[0])
 
     def predict_proba(self, X):
         """Not implemented for this method."""
-- 
2.43.0


From 98f0fbd8edf31fc28ddc0e2c287d4739c3073c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:33 +0000
Subject: [PATCH 38/49] fix: HoeffdingTreeRegressor gave one prediction for any
 number of rows while empty

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index 324ec53..fc6ce73 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -421,8 +421,8 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
 
         """
         predictions = []
+        r, _ = get_dimensions(X)
         if self.samples_seen > 0 and self._tree_root is not None:
-            r, _ = get_dimensions(X)
             for i in range(r):
                 node = self._tree_root.filter_instance_to_leaf(X[i], None, -1).node
                 if node.is_leaf():
@@ -433,7 +433,7 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                     predictions.append(node.stats[1] / node.stats[0])
         else:
             # Model is empty
-            predictions.append(0.0)
+            predictions = [0.0] * r
         return np.asarray(predictions)
 
     def predict_proba(self, X):
-- 
2.43.0


From 5ead729b449987ae51d91ee2e83d26b1b6da7c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:49 +0000
Subject: [PATCH 39/49] fix: reset of the classification evaluators forgot
 n_classes and n_labels

---
 .../metrics/_classification_performance_evaluator.pyx       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index c37cbca..db48177 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -566,7 +566,7 @@ cdef class WindowClassificationPerformanceEvaluator(ClassificationPerformanceEva
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__(window_size=self.window_size)
+        self.__init__(n_classes=self._init_n_classes, window_size=self.window_size)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
@@ -741,7 +741,7 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__()
+        self.__init__(n_labels=self._init_n_labels)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
@@ -874,7 +874,7 @@ cdef class WindowMultiLabelClassificationPerformanceEvaluator(MultiLabelClassifi
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__(window_size=self.window_size)
+        self.__init__(n_labels=self._init_n_labels, window_size=self.window_size)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
-- 
2.43.0


From c0790b2ad97d8cfc3ee877fdd4e1af653afae827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:22 +0000
Subject: [PATCH 40/49] fix: TemporalDataStream(ordered=False) sorted the
 caller's time series in place

---
 src/skmultiflow/data/temporal_data_stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/data/temporal_data_stream.py b/src/skmultiflow/data/temporal_data_stream.py
index 78d4119..3b06e0c 100644
--- a/src/skmultiflow/data/temporal_data_stream.py
+++ b/src/skmultiflow/data/temporal_data_stream.py
@@ -143,7 +143,7 @@ class TemporalDataStream(DataStream):
                     # order sample_delay, check if not single delay
                     self.sample_delay = self.sample_delay[np.argsort(time)]
                     # order time
-                    self.time.sort()
+                    self.time = np.sort(self.time)
             else:
                 raise TypeError("'time' is None, data cannot be ordered.")
         super().__init__(data, y, target_idx, n_targets, cat_features, name, allow_nan)
-- 
2.43.0


From a7fa4e0552b34941f5cce06c61e8011ee02eb83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:55 +0000
Subject: [PATCH 41/49] fix: MultilabelGenerator and AnomalySineGenerator
 claimed to have more samples when exhausted

---
 src/skmultiflow/data/anomaly_sine_generator.py | 10 ++++++++++
 src/skmultiflow/data/multilabel_generator.py   | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/skmultiflow/data/anomaly_sine_generator.py b/src/skmultiflow/data/anomaly_sine_generator.py
index ca3d580..facc19e 100644
--- a/src/skmultiflow/data/anomaly_sine_generator.py
+++ b/src/skmultiflow/data/anomaly_sine_generator.py
@@ -141,6 +141,16 @@ class AnomalySineGenerator(Stream):
         """
         return self.n_samples - self.sample_idx
 
+    def has_more_samples(self):
+        """ Checks if stream has more samples.
+
+        Returns
+        -------
+        Boolean
+            True if stream has more samples.
+        """
+        return self.n_samples - self.sample_idx > 0
+
     def get_data_info(self):
         """ Retrieves minimum information from the stream
 
diff --git a/src/skmultiflow/data/multilabel_generator.py b/src/skmultiflow/data/multilabel_generator.py
index d8446f3..4f22137 100644
--- a/src/skmultiflow/data/multilabel_generator.py
+++ b/src/skmultiflow/data/multilabel_generator.py
@@ -157,3 +157,13 @@ class MultilabelGenerator(Stream):
             Number of remaining samples.
         """
         return self.n_samples - self.sample_idx
+
+    def has_more_samples(self):
+        """ Checks if stream has more samples.
+
+        Returns
+        -------
+        Boolean
+            True if stream has more samples.
+        """
+        return self.n_samples - self.sample_idx > 0
-- 
2.43.0


From 1c3336aa268e46204f503cb8d0b920c8ffbcb531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:04 +0000
Subject: [PATCH 42/49] fix: RandomTreeGenerator and the RBF generators did not
 advance sample_idx

---
 src/skmultiflow/data/random_rbf_generator.py  | 1 +
 src/skmultiflow/data/random_tree_generator.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/skmultiflow/data/random_rbf_generator.py b/src/skmultiflow/data/random_rbf_generator.py
index 6d6753b..ea57537 100644
--- a/src/skmultiflow/data/random_rbf_generator.py
+++ b/src/skmultiflow/data/random_rbf_generator.py
@@ -131,6 +131,7 @@ class RandomRBFGenerator(Stream):
         """
         data = np.zeros([batch_size, self.n_features + 1])
         for j in range(batch_size):
+            self.sample_idx += 1
             i = prp.random_index_based_on_weights(self.centroid_weights, self._sample_random_state)
             centroid_aux = self.centroids[i]
             att_vals = []
diff --git a/src/skmultiflow/data/random_tree_generator.py b/src/skmultiflow/data/random_tree_generator.py
index 47807da..b8b2153 100644
--- a/src/skmultiflow/data/random_tree_generator.py
+++ b/src/skmultiflow/data/random_tree_generator.py
@@ -337,6 +337,7 @@ class RandomTreeGenerator(Stream):
             self.n_cat_features * self.n_categories_per_cat_feature)
         data = np.zeros([batch_size, max_features + 1])
         for j in range(batch_size):
+            self.sample_idx += 1
             for i in range(self.n_num_features):
                 data[j, i] = self._sample_random_state.rand()
 
-- 
2.43.0


From 33bb2796103d9f117758347ac421da4be650eea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:56 +0000
Subject: [PATCH 43/49] fix: constructing an evaluator changed the warning
 filters of the whole process

---
 src/skmultiflow/evaluation/evaluate_holdout.py            | 8 ++++----
 src/skmultiflow/evaluation/evaluate_prequential.py        | 8 ++++----
 .../evaluation/evaluate_prequential_delayed.py            | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/skmultiflow/evaluation/evaluate_holdout.py b/src/skmultiflow/evaluation/evaluate_holdout.py
index 3814175..5eec27a 100644
--- a/src/skmultiflow/evaluation/evaluate_holdout.py
+++ b/src/skmultiflow/evaluation/evaluate_holdout.py
@@ -184,9 +184,6 @@ class EvaluateHoldout(StreamEvaluator):
             self.test_size = test_size
         self.n_sliding = test_size
 
-        warnings.filterwarnings("ignore", ".*invalid value encountered in true_divide.*")
-        warnings.filterwarnings("ignore", ".*Passing 1d.*")
-
     def evaluate(self, stream, model, model_names=None):
         """ Evaluates a learner or set of learners on samples from a stream.
 
@@ -218,7 +215,10 @@ class EvaluateHoldout(StreamEvaluator):
             self._init_plot()
             self._init_file()
 
-            self.model = self._periodic_holdout()
+            with warnings.catch_warnings():
+                warnings.filterwarnings("ignore", ".*invalid value encountered in true_divide.*")
+                warnings.filterwarnings("ignore", ".*Passing 1d.*")
+                self.model = self._periodic_holdout()
 
             if self.show_plot:
                 self.visualizer.hold()
diff --git a/src/skmultiflow/evaluation/evaluate_prequential.py b/src/skmultiflow/evaluation/evaluate_prequential.py
index 2ad09cb..3241d67 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential.py
@@ -223,9 +223,6 @@ class EvaluatePrequential(StreamEvaluator):
         self.restart_stream = restart_stream
         self.n_sliding = n_wait
 
-        warnings.filterwarnings("ignore", ".*invalid value encountered in true_divide.*")
-        warnings.filterwarnings("ignore", ".*Passing 1d.*")
-
     def evaluate(self, stream, model, model_names=None):
         """ Evaluates a model or set of models on samples from a stream.
 
@@ -255,7 +252,10 @@ class EvaluatePrequential(StreamEvaluator):
             self._init_plot()
             self._init_file()
 
-            self.model = self._train_and_test()
+            with warnings.catch_warnings():
+                warnings.filterwarnings("ignore", ".*invalid value encountered in true_divide.*")
+                warnings.filterwarnings("ignore", ".*Passing 1d.*")
+                self.model = self._train_and_test()
 
             if self.show_plot:
                 self.visualizer.hold()
diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index 2bc9934..ab5b611 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -247,9 +247,6 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
         self.restart_stream = restart_stream
         self.n_sliding = n_wait
 
-        warnings.filterwarnings("ignore", ".*invalid value encountered in true_divide.*")
-        warnings.filterwarnings("ignore", ".*Passing 1d.*")
-
     def evaluate(self, stream, model, model_names=None):
         """ Evaluates a model or set of models on samples from a stream.
 
@@ -279,7 +276,10 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
             self._init_plot()
             self._init_file()
 
-            self.model = self._train_and_test
+            with warnings.catch_warnings():
+                warnings.filterwarnings("ignore", ".*invalid value encountered in true_divide.*")
+                warnings.filterwarnings("ignore", ".*Passing 1d.*")
+                self.model = self._train_and_test
 
             if self.show_plot:
                 self.visualizer.hold()
-- 
2.43.0


From f85af7c5d1e09a889f2781f7dc7f205de55c4c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:49 +0000
Subject: [PATCH 44/49] fix: HoeffdingTreeClassifier(remove_poor_atts=True)
 asked the null split for its attribute

---
 src/skmultiflow/trees/hoeffding_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index b634fde..a9bdc94 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -600,7 +600,7 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
                     poor_atts = set()
                     # Add any poor attribute to set
                     for i in range(len(best_split_suggestions)):
-                        if best_split_suggestions[i] is not None:
+                        if best_split_suggestions[i].split_test is not None:
                             split_atts = best_split_suggestions[i].split_test.\
                                 get_atts_test_depends_on()
                             if len(split_atts) == 1:
-- 
2.43.0


From 50395aeb9d4c432dbbcd5e8c0e6f41dab5659dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:49 +0000
Subject: [PATCH 45/49] fix: regression trees with remove_poor_atts divided by
 a merit of zero

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 2 +-
 src/skmultiflow/trees/isoup_tree.py               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index fc6ce73..8b85d5a 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -481,7 +481,7 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                     (second_best_suggestion.merit / best_suggestion.merit < 1 - hoeffding_bound
                         or hoeffding_bound < self.tie_threshold):
                 should_split = True
-            if self.remove_poor_atts:
+            if self.remove_poor_atts and best_suggestion.merit > 0.0:
                 poor_atts = set()
                 best_ratio = second_best_suggestion.merit / best_suggestion.merit
 
diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index 51d451f..294d5d0 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -530,7 +530,7 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
                                                < 1 - hoeffding_bound or hoeffding_bound
                                                < self.tie_threshold)):
                 should_split = True
-            if self.remove_poor_atts and not should_split:
+            if self.remove_poor_atts and not should_split and best_suggestion.merit > 0:
                 poor_atts = set()
                 best_ratio = second_best_suggestion.merit / best_suggestion.merit
 
-- 
2.43.0


From ad523b817203e5035804188add25950deb971aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:03 +0000
Subject: [PATCH 46/49] fix: HalfSpaceTrees.predict labelled every row of a
 batch by the first row

---
 src/skmultiflow/anomaly_detection/half_space_trees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/anomaly_detection/half_space_trees.py b/src/skmultiflow/anomaly_detection/half_space_trees.py
index a24fe53..e011e7a 100644
--- a/src/skmultiflow/anomaly_detection/half_space_trees.py
+++ b/src/skmultiflow/anomaly_detection/half_space_trees.py
@@ -185,15 +185,15 @@ class HalfSpaceTrees(BaseSKMObject, ClassifierMixin):
         """
         r, _ = get_dimensions(X)
         predictions = []
+        y_proba = self.predict_proba(X)
         for i in range(r):
-            y_proba = self.predict_proba(X)
             if y_proba is None:
                 # Ensemble is empty, all classes equal, default to zero
                 predictions.append(0)
             else:
                 # if prediction of this instance is greater than the threshold
                 # defined, then this instance is classified as an anomaly.
-                if y_proba[0][1] > self.anomaly_threshold:
+                if y_proba[i][1] > self.anomaly_threshold:
                     predictions.append(1)
                 else:
                     predictions.append(0)
-- 
2.43.0


From 2d472eaa6ca2598b0fad5d44d18d7806b37d598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:04 +0000
Subject: [PATCH 47/49] fix: AccuracyWeightedEnsembleClassifier trained a chunk
 with the weights of other samples

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index 4172e0a..3085f3b 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -147,6 +147,7 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         self.p = -1  # chunk pointer
         self.X_chunk = None
         self.y_chunk = None
+        self.weight_chunk = None
 
     def partial_fit(self, X, y=None, classes=None, sample_weight=None):
         """ Partially (incrementally) fit the model.
@@ -173,12 +174,16 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         if self.p == -1:
             self.X_chunk = np.zeros((self.window_size, D))
             self.y_chunk = np.zeros(self.window_size)
+            self.weight_chunk = np.ones(self.window_size)
             self.p = 0
 
+        weights = np.broadcast_to(1.0 if sample_weight is None else sample_weight, (N,))
+
         # fill up the data chunk
         for i, x in enumerate(X):
             self.X_chunk[self.p] = X[i]
             self.y_chunk[self.p] = y[i]
+            self.weight_chunk[self.p] = weights[i]
             self.p += 1
 
             if self.p == self.window_size:
@@ -191,7 +196,7 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
                 # (1) train classifier C' from X
                 C_new = self.train_model(model=cp.deepcopy(self.base_estimator),
                                          X=self.X_chunk, y=self.y_chunk,
-                                         classes=classes, sample_weight=sample_weight)
+                                         classes=classes, sample_weight=self.weight_chunk)
 
                 # compute the baseline error rate given by a random classifier
                 baseline_score = self.compute_baseline(self.y_chunk)
@@ -312,6 +317,7 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         self.p = -1
         self.X_chunk = None
         self.y_chunk = None
+        self.weight_chunk = None
 
     @staticmethod
     def compute_score(model, X, y):
-- 
2.43.0


From a1eb49cb777002c0a2169d961126d2df67ced4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:58 +0000
Subject: [PATCH 48/49] fix: AdaptiveRandomForestClassifier ignored sample
 weights when training its trees

---
 src/skmultiflow/meta/adaptive_random_forests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index fa64381..f44e413 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -327,7 +327,7 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
             if k > 0:
                 self.ensemble[i].partial_fit(np.asarray([X]), np.asarray([y]),
                                              classes=classes,
-                                             sample_weight=np.asarray([k]),
+                                             sample_weight=np.asarray([k * sample_weight]),
                                              instances_seen=self.instances_seen)
 
     def predict(self, X):
-- 
2.43.0


From dcb160496e1663f95539ec6f65f9ac3ac77b0f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:30 +0000
Subject: [PATCH 49/49] fix: variance reduction divides by the weight seen, not
 by its integer part (fractional sample weights)

---
 .../_split_criterion/variance_reduction_split_criterion.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py b/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py
index 7abfdd2..084c33a 100644
--- a/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py
+++ b/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py
@@ -36,7 +36,7 @@ class VarianceReductionSplitCriterion(SplitCriterion):
     @staticmethod
     def compute_SD(dist):
 
-        N = int(dist[0])
+        N = dist[0]
         sum_ = dist[1]
         sum_sq = dist[2]
 
-- 
2.43.0

