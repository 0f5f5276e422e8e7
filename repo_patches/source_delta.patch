From b2c84bc16f4af20eaa4a2bf127cf8c376192d34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:09 +0000
Subject: [PATCH 01/34] fix: Scorer.get_predicted_leaves read a non-existing
 attribute

---
 rankeval/scoring/scorer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/scoring/scorer.py b/rankeval/scoring/scorer.py
index 8952b14..702f30a 100644
--- a/rankeval/scoring/scorer.py
+++ b/rankeval/scoring/scorer.py
@@ -139,7 +139,7 @@ class Scorer(object):
             each dataset instance.
 
         """
-        if self.self.y_leaves is None:
+        if self.out_leaves is None:
             self.score(detailed=True)
-        return self.self.y_leaves
+        return self.out_leaves
 
-- 
2.43.0


From e91e1056b26b98b414594ebb1a4ec7f933f94dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:09 +0000
Subject: [PATCH 02/34] fix: NDCG.eval_per_query used stale cached ideal scores
 after eval

---
 rankeval/metrics/ndcg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rankeval/metrics/ndcg.py b/rankeval/metrics/ndcg.py
index 1f5771d..33e1067 100644
--- a/rankeval/metrics/ndcg.py
+++ b/rankeval/metrics/ndcg.py
@@ -94,7 +94,11 @@ class NDCG(Metric):
 
             self._cache_idcg_score[self._current_dataset] = idcg_score
 
-        return super(self.__class__, self).eval(dataset, y_pred)
+        try:
+            return super(self.__class__, self).eval(dataset, y_pred)
+        finally:
+            # the cached ideal scores are meaningful only during this eval
+            self._current_rel_qid = None
 
     def eval_per_query(self, y, y_pred):
         """
-- 
2.43.0


From 2227802d3bc3d952b6b6dce84e50cfb912b94974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:09 +0000
Subject: [PATCH 03/34] fix: Dataset equality and hash ignored the query
 boundaries and failed on different shapes

---
 rankeval/dataset/dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index c2a154a..bfb12f3 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -409,13 +409,16 @@ class Dataset(object):
         if self._hash_cached is None:
 
             h = hashlib.md5()
-            for arr in [self.X, self.y, self.query_ids]:
+            for arr in [self.X, self.y, self.query_ids, self.query_offsets]:
                 h.update(arr)
             self._hash_cached = int(h.hexdigest(), 16)
 
         return self._hash_cached
 
     def __eq__(self, other):
+        if self.X.shape != other.X.shape or \
+                not np.array_equal(self.query_offsets, other.query_offsets):
+            return False
         # use != instead of == because it is more efficient for sparse matrices:
         x_eq = not(self.X != other.X).any()
         return x_eq and (self.y == other.y).all() and \
-- 
2.43.0


From b541ee8f4f4eb2d540787d17f988d03c9603580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:09 +0000
Subject: [PATCH 04/34] fix: MSE.eval indexed the detailed scores by query id
 instead of position

---
 rankeval/metrics/mse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rankeval/metrics/mse.py b/rankeval/metrics/mse.py
index 2cc4f04..ea09725 100644
--- a/rankeval/metrics/mse.py
+++ b/rankeval/metrics/mse.py
@@ -58,8 +58,9 @@ class MSE(Metric):
 
         self.detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)
 
-        for qid, q_y, q_y_pred in self.query_iterator(dataset, y_pred):
-            self.detailed_scores[qid] = \
+        for rel_qid, (_, q_y, q_y_pred) in enumerate(
+                self.query_iterator(dataset, y_pred)):
+            self.detailed_scores[rel_qid] = \
                 self.eval_per_query(q_y, q_y_pred) / dataset.n_instances
         return self.detailed_scores.sum(), self.detailed_scores
 
-- 
2.43.0


From 8a05bf8b338da3688e8efb90ff8518f80b574f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:09 +0000
Subject: [PATCH 05/34] fix: MAP returned no_relevant_results when the relevant
 documents are below the cutoff

---
 rankeval/metrics/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/metrics/map.py b/rankeval/metrics/map.py
index dba121b..40c5ab7 100644
--- a/rankeval/metrics/map.py
+++ b/rankeval/metrics/map.py
@@ -105,7 +105,7 @@ class MAP(Metric):
                 n_relevant_retrieved_at_i += 1
                 precision_at_i += n_relevant_retrieved_at_i / (i + 1)
 
-        if n_relevant_retrieved_at_i > 0:
+        if np.count_nonzero(y) > 0:
             return precision_at_i / min(n_retrieved, np.count_nonzero(y))
         else:
             return self.no_relevant_results
-- 
2.43.0


From 5478889f71362d83ec34ca7b67b3ada1b1d4ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:09 +0000
Subject: [PATCH 06/34] fix: Dataset.split test set overlapped the others when
 no query is left for it

---
 rankeval/dataset/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index bfb12f3..23cfa0a 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -211,7 +211,7 @@ class Dataset(object):
 
         train_qid = qids_permutation[:train_qn]
         vali_qid = qids_permutation[train_qn:train_qn + vali_qn]
-        test_qid = qids_permutation[-test_qn:]
+        test_qid = qids_permutation[train_qn + vali_qn:]
 
         train_mask = np.in1d(qid_map, train_qid)
         vali_mask = np.in1d(qid_map, vali_qid)
-- 
2.43.0


From 48c35566f90d13ae13ad03166e5565b813968720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:09 +0000
Subject: [PATCH 07/34] fix: Dataset.get_query_offsets raised AttributeError on
 a missing query id

---
 rankeval/dataset/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 23cfa0a..7203223 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -316,8 +316,8 @@ class Dataset(object):
         """
         idx = np.where(self.query_ids == query_id)[0]
         if idx.size == 0:
-            raise LookupError("query_id {:d} is missing from the dataset") \
-                .format(query_id)
+            raise LookupError("query_id {:d} is missing from the dataset"
+                              .format(query_id))
         # Take first element
         idx = idx[0]
         return self.query_offsets[idx], self.query_offsets[idx + 1]
-- 
2.43.0


From 294580845ecd8617bf3fed986ea28d6e3ea725d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:30 +0000
Subject: [PATCH 08/34] fix: dumping a dataset with a single instance lost its
 query id

---
 rankeval/dataset/_svmlight_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index cc5583d..76f458a 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -394,7 +394,7 @@ static PyObject *dump_svmlight_file(PyObject *self, PyObject *args)
 
     int n_samples = PyArray_DIM(data_array, 0);
     int n_features = PyArray_DIM(data_array, 1);
-    int n_queries = PyArray_DIM(qids_array, 0) - 1;
+    int n_queries = PyArray_DIM(qids_array, 0);
 
     float *data   = (float*) data_array->data;
     float *y      = (float*) label_array->data;
-- 
2.43.0


From 624d1dd0ae2f7c24dfd161aa692978852eefad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:30 +0000
Subject: [PATCH 09/34] fix: XGBoost thresholds of large magnitude were not
 moved to the previous float

---
 rankeval/model/proxy_XGBoost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_XGBoost.py b/rankeval/model/proxy_XGBoost.py
index be9d5fb..38a020c 100644
--- a/rankeval/model/proxy_XGBoost.py
+++ b/rankeval/model/proxy_XGBoost.py
@@ -93,7 +93,7 @@ class ProxyXGBoost(object):
                     # Needed because XGBoost use as split condition
                     # < in place of <=
                     threshold = np.nextafter(
-                        threshold, threshold - 1,
+                        threshold, -np.inf,
                         dtype=model.trees_nodes_value.dtype)
 
                     model.trees_nodes_feature[node_id] = feature_id
-- 
2.43.0


From 17dd360cc790f7688d1200e33bf55432c85a7974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:30 +0000
Subject: [PATCH 10/34] fix: tree_wise_performance failed on models with fewer
 trees than the step

---
 rankeval/analysis/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 836a2cd..a5f2bfb 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -115,7 +115,7 @@ def tree_wise_performance(datasets, models, metrics, step=10, cache=False):
     def get_tree_steps(model_trees):
         trees = list(xrange(step-1, model_trees, step))
         # Add last tree to the steps
-        if trees[-1] != model_trees-1:
+        if not trees or trees[-1] != model_trees-1:
             trees.append(model_trees-1)
         return np.array(trees)
 
-- 
2.43.0


From 1cbf5e5dcb295057fd2b6144c7511aaa8b6a0424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:30 +0000
Subject: [PATCH 11/34] fix: relevance labels could not be collected over
 datasets of different sizes

---
 rankeval/analysis/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index a5f2bfb..27c1b93 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -450,7 +450,7 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
 
     bin_values = np.linspace(start=start, stop=end, num=bins+1)
 
-    rel_labels = np.sort(np.unique([dataset.y for dataset in datasets]))
+    rel_labels = np.sort(np.unique(np.concatenate([dataset.y for dataset in datasets])))
 
     data = np.full(shape=(len(datasets), len(models), len(rel_labels), bins),
                    fill_value=np.nan, dtype=np.float32)
@@ -509,7 +509,7 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
         documents with a predicted score smaller than documents with label l_j
     """
 
-    rel_labels = np.sort(np.unique([dataset.y for dataset in datasets])).astype(np.int32)
+    rel_labels = np.sort(np.unique(np.concatenate([dataset.y for dataset in datasets]))).astype(np.int32)
 
     data = np.zeros(shape=(len(datasets), len(models), len(rel_labels),
                            len(rel_labels)), dtype=np.int32)
-- 
2.43.0


From 6c85d678534c0c77a1afe7ee3fbda622c5ec4913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:30 +0000
Subject: [PATCH 12/34] fix: rank_confusion_matrix used the label values as
 positions

---
 rankeval/analysis/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 27c1b93..b82ca6e 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -523,8 +523,8 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
                         # check if the two documents have the same label and skip them
                         if skip_same_label and dataset.y[i] == dataset.y[j]:
                             continue
-                        y_i = dataset.y[i].astype(np.int32)
-                        y_j = dataset.y[j].astype(np.int32)
+                        y_i = np.searchsorted(rel_labels, int(dataset.y[i]))
+                        y_j = np.searchsorted(rel_labels, int(dataset.y[j]))
                         if y_pred[i] < y_pred[j]:
                             data[idx_dataset][idx_model][y_i, y_j] += 1
                         else:
-- 
2.43.0


From c6d612bd02d33ab809685e07aaebb9cd337099d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:30 +0000
Subject: [PATCH 13/34] fix: bin coordinates of the cumulative analyses assumed
 a unit range

---
 rankeval/analysis/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index b82ca6e..95769a0 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -307,7 +307,7 @@ def query_wise_performance(datasets, models, metrics, bins=None,
     performance = xr.DataArray(data,
                                name='Query-Wise Performance',
                                coords=[datasets, models, metrics,
-                                       bin_values[:-1] + 1.0 / bins],
+                                       bin_values[1:]],
                                dims=['dataset', 'model', 'metric', 'bin'])
     return performance
 
@@ -473,7 +473,7 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
     performance = xr.DataArray(data,
                                name='Document Graded Relevance',
                                coords=[datasets, models, rel_labels,
-                                       bin_values[:-1] + 1.0 / bins],
+                                       bin_values[1:]],
                                dims=['dataset', 'model', 'label', 'bin'])
     return performance
 
-- 
2.43.0


From e0ca7270e128a327c2308e3aec7523b71f2aec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:30 +0000
Subject: [PATCH 14/34] fix: RMSE feature importance took the root only for the
 first feature

---
 rankeval/analysis/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 3472958..e6fee96 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -64,7 +64,7 @@ def feature_importance(model, dataset, metric=None, normalize=True):
     if isinstance(metric, RMSE) or isinstance(metric, MSE):
         feature_imp, feature_count = eff_feature_importance(model, dataset)
         if isinstance(metric, RMSE):
-            feature_imp[0] = np.sqrt(feature_imp[0])
+            feature_imp = np.sqrt(np.maximum(feature_imp, 0))
     else:
         # initialize features importance
         feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
-- 
2.43.0


From 0cb26d7d120d9b27a541c1319cac0d5064611715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:30 +0000
Subject: [PATCH 15/34] fix: feature importance read out of bounds on empty
 left splits and on single leaf trees

---
 rankeval/analysis/_efficient_feature_impl.cpp |  7 +++++--
 rankeval/analysis/_efficient_feature_impl.h   | 12 ++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index 4c733b9..21865b7 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -87,7 +87,10 @@ void c_feature_importance_tree(
         y_pred_tree[instance] = mean_y_target;
 
     TreeNode root(trees_root[tree_id], 0, n_instances - 1);
-    std::vector<TreeNode> queue = { root };
+    std::vector<TreeNode> queue;
+    // a tree made of a single leaf has no split to evaluate
+    if (!is_leaf_node(root.node_id, trees_left_child, trees_right_child))
+        queue.push_back(root);
 
     while (!queue.empty()) {
 
@@ -129,7 +132,7 @@ void c_feature_importance_tree(
         // compute split gain
         float delta_mse = 0;
         #pragma omp parallel for reduction( + : delta_mse )
-        for (unsigned int i = node.start_id; i <= node.end_id; ++i) {
+        for (int i = node.start_id; i <= node.end_id; ++i) {
             unsigned int instance = split_instance[i];
             float pre_split_mse =
                 pow(y_target[instance] - y_pred_tree[instance], 2);
diff --git a/rankeval/analysis/_efficient_feature_impl.h b/rankeval/analysis/_efficient_feature_impl.h
index 9b78b1a..9f0fd5c 100644
--- a/rankeval/analysis/_efficient_feature_impl.h
+++ b/rankeval/analysis/_efficient_feature_impl.h
@@ -1,12 +1,12 @@
 class TreeNode {
     public:
-        unsigned int node_id;
-        unsigned int start_id;
-        unsigned int end_id;
+        int node_id;
+        int start_id;
+        int end_id;
 
-        TreeNode(unsigned int node_id,
-                 unsigned int start_id,
-                 unsigned int end_id) :
+        TreeNode(int node_id,
+                 int start_id,
+                 int end_id) :
             node_id(node_id),
             start_id(start_id),
             end_id(end_id) {}
-- 
2.43.0


From 2faa4b95d48f52f4e794c7231994ee5702d89798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:58 +0000
Subject: [PATCH 16/34] fix: bias_variance failed outside notebooks and with
 numpy >= 1.24

---
 rankeval/analysis/statistical.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index 87c2693..bbc2811 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -214,7 +214,7 @@ def _kfold_scoring(dataset, k, algo):
         # p-th fold is used for testing
         test_rows = np.full(dataset.n_instances,
                             fill_value=False,
-                            dtype=np.bool)
+                            dtype=bool)
         for q in shuffled_qid[p: p + chunk_query_size]:
             test_rows[dataset.query_offsets[q]:dataset.query_offsets[q+1]] = True
         # other folds are used for training
@@ -222,7 +222,7 @@ def _kfold_scoring(dataset, k, algo):
 
         train_q = np.full(dataset.n_queries,
                           fill_value=True,
-                          dtype=np.bool)
+                          dtype=bool)
         train_q[shuffled_qid[p: p+chunk_query_size]] = False
 
         # get algorithm predictions
@@ -235,8 +235,9 @@ def _kfold_scoring(dataset, k, algo):
         # update scores for the current fold
         scores[test_rows] = fold_scores
         
-    progress_bar.bar_style = "success"
-    progress_bar.close()
+    if ipywidgets:
+        progress_bar.bar_style = "success"
+        progress_bar.close()
         
     return scores
 
-- 
2.43.0


From b6af77d197e1f108e222defd0153db3d3e04e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:47 +0000
Subject: [PATCH 17/34] fix: feature importance evaluated the leaf of single
 leaf trees as a split

---
 rankeval/analysis/feature.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index e6fee96..c14b71f 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -139,7 +139,10 @@ def _feature_importance_tree(model, dataset, tree_id, y_pred, metric,
 
     # queue with node_id to be visited and list of documents in the node
     root_node_id = model.trees_root[tree_id]
-    deq = deque([(root_node_id, 0, None)])
+    deq = deque()
+    # a tree made of a single leaf has no split to evaluate
+    if not model.is_leaf_node(root_node_id):
+        deq.append((root_node_id, 0, None))
 
     # we score the tree on a level basis, so that the feature_gain of each split
     # node is computed accordingly to the predictions of the parent level
-- 
2.43.0


From 531bc722b99e7ce672f9a62a2682a0c52426bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:47 +0000
Subject: [PATCH 18/34] fix: svmlight rows without features preceding the
 others were lost

---
 rankeval/dataset/_svmlight_format.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 76f458a..b783914 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -307,6 +307,9 @@ void parse_line(const std::string &line,
   // it means we have to reshape the dataset to include new columns...
   if (max_feature > 0 && (next_feature - 1) > max_feature) {
     reshape_data(data, max_feature, next_feature - 1);
+  } else if (max_feature == 0 && labels.size() > 1) {
+    // ... or all the previous rows were without features
+    data.insert(data.begin(), (labels.size() - 1) * (next_feature - 1), 0);
   }
 
   max_feature = std::max(next_feature - 1, max_feature);
-- 
2.43.0


From cca185e8c6a8652d07d9d3328e54c02938921fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:47 +0000
Subject: [PATCH 19/34] fix: base score of recent scikit-learn models was not
 exported

---
 rankeval/model/proxy_ScikitLearn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_ScikitLearn.py b/rankeval/model/proxy_ScikitLearn.py
index 990a09c..505bdcb 100644
--- a/rankeval/model/proxy_ScikitLearn.py
+++ b/rankeval/model/proxy_ScikitLearn.py
@@ -178,7 +178,9 @@ class ProxyScikitLearn(object):
 
         if not hasattr(model, 'init_'):
             raise TypeError("Base score missing!")
-        if hasattr(model.init_, "quantile"):
+        if hasattr(model.init_, "constant_"):
+            base_score = model.init_.constant_.flatten()[0]
+        elif hasattr(model.init_, "quantile"):
             base_score = model.init_.quantile
         elif hasattr(model.init_, "mean"):
             base_score = model.init_.mean
-- 
2.43.0


From 844518268077486546cd4d124dbcfec006b49383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:47 +0000
Subject: [PATCH 20/34] fix: scikit-learn export truncated thresholds, base
 score and learning rate to six decimals

---
 rankeval/model/proxy_ScikitLearn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rankeval/model/proxy_ScikitLearn.py b/rankeval/model/proxy_ScikitLearn.py
index 505bdcb..9b12b10 100644
--- a/rankeval/model/proxy_ScikitLearn.py
+++ b/rankeval/model/proxy_ScikitLearn.py
@@ -191,8 +191,8 @@ class ProxyScikitLearn(object):
         with open(file_path, 'w') as writer:
             if not hasattr(model, 'init_'):
                 raise TypeError("Base score missing!")
-            writer.write("base_score=%f\n" % base_score)
-            writer.write("learning_rate=%f\n" % model.learning_rate)
+            writer.write("base_score=%r\n" % float(base_score))
+            writer.write("learning_rate=%r\n" % float(model.learning_rate))
             for tree_id, tree in enumerate(model.estimators_.flatten()):
                 ProxyScikitLearn._export_tree(writer, tree, tree_id)
 
@@ -213,7 +213,7 @@ class ProxyScikitLearn(object):
             if tree_.feature[node] != _tree.TREE_UNDEFINED:
                 name = "f%d" % tree_.feature[node]
                 threshold = tree_.threshold[node]
-                writer.write("%s%d:[%s<=%f]\n" % (indent, node, name, threshold))
+                writer.write("%s%d:[%s<=%r]\n" % (indent, node, name, float(threshold)))
                 recurse(tree_.children_left[node], depth + 1)
                 # print "%s%d:[%s>%f]" % (indent, node, name, threshold)
                 recurse(tree_.children_right[node], depth + 1)
-- 
2.43.0


From 1669e026239795092075a7fb7b0e097edc47a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:14 +0000
Subject: [PATCH 21/34] fix: CatBoost loader assumed that all the trees have
 the same number of nodes

---
 rankeval/model/proxy_CatBoost.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rankeval/model/proxy_CatBoost.py b/rankeval/model/proxy_CatBoost.py
index 4642f57..56fa809 100644
--- a/rankeval/model/proxy_CatBoost.py
+++ b/rankeval/model/proxy_CatBoost.py
@@ -67,14 +67,20 @@ class ProxyCatBoost(object):
         # given the shape and size of the ensemble
         model.initialize(n_trees, n_nodes)
 
-        n_nodes_per_tree = int(n_nodes / n_trees)
-
         nodes = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble.nodes
         behaviors = coremltools.proto.TreeEnsemble_pb2.TreeEnsembleParameters.\
             TreeNode.TreeNodeBehavior
 
+        # each tree may have a different number of nodes (ids start from 0)
+        tree_sizes = np.zeros(n_trees, dtype=np.int64)
+        for node in nodes:
+            tree_sizes[node.treeId] = max(tree_sizes[node.treeId],
+                                          node.nodeId + 1)
+        tree_offsets = np.cumsum(tree_sizes) - tree_sizes
+
         for node in nodes:
-            tree_offset = node.treeId * n_nodes_per_tree
+            n_nodes_per_tree = int(tree_sizes[node.treeId])
+            tree_offset = int(tree_offsets[node.treeId])
             node_id_remap = ProxyCatBoost.remap_nodeId(node.nodeId,
                                                        n_nodes_per_tree)
             node_id_off = node_id_remap + tree_offset
@@ -152,7 +158,7 @@ class ProxyCatBoost(object):
 
         n_trees = np.max([node.treeId for node in nodes]) + 1
 
-        n_nodes_trees = np.empty(n_trees, dtype=np.uint16)
+        n_nodes_trees = np.empty(n_trees, dtype=np.int32)
         for node in nodes:
             n_nodes_trees[node.treeId] = node.nodeId
 
-- 
2.43.0


From 6542b8e2a64e444f2d8f7e47e5e46671a3771eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:55 +0000
Subject: [PATCH 22/34] fix: Kendall tau passed an argument that scipy no
 longer accepts

---
 rankeval/metrics/kendall_tau.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/metrics/kendall_tau.py b/rankeval/metrics/kendall_tau.py
index 07197f1..f14bc68 100644
--- a/rankeval/metrics/kendall_tau.py
+++ b/rankeval/metrics/kendall_tau.py
@@ -90,7 +90,7 @@ class Kendalltau(Metric):
         kendalltau: float
             The Kendall tau per query.
         """
-        kendall_tau = stats.kendalltau(y, y_pred, initial_lexsort=True)
+        kendall_tau = stats.kendalltau(y, y_pred)
         return kendall_tau.correlation
 
 
-- 
2.43.0


From 343c9ec139b45efdff0916a9aaa8a2633770ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:46 +0000
Subject: [PATCH 23/34] fix: svmlight fields with trailing characters or
 negative ids were accepted

---
 rankeval/dataset/_svmlight_format.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index b783914..d069c14 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -273,7 +273,10 @@ void parse_line(const std::string &line,
   }
 
 
-  if (sscanf(token.c_str(), "qid:%u", &idx) != 1) {
+  // the number of characters consumed tells whether the whole token matched
+  int consumed = 0;
+  if (sscanf(token.c_str(), "qid:%u%n", &idx, &consumed) != 1 ||
+      consumed != (int) token.length()) {
     reuse_line = true;
   } else {
     qids.push_back(idx);
@@ -284,7 +287,8 @@ void parse_line(const std::string &line,
         break;
     reuse_line = false;
 
-    if(sscanf(token.c_str(), "%u:%lf", &idx, &x) == 2) {
+    if(sscanf(token.c_str(), "%u:%lf%n", &idx, &x, &consumed) == 2 &&
+       consumed == (int) token.length() && idx >= 0) {
 
         // Add zeros in empty spaces between next_feature and idx indices  (iff idx > next_feature)
         for (; next_feature < idx; ++next_feature)
-- 
2.43.0


From 8affcf3894c2258b546d41d994f464cc6ad21b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:46 +0000
Subject: [PATCH 24/34] fix: dumping a dataset with column-major features wrote
 the wrong values

---
 rankeval/dataset/svmlight_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/svmlight_format.py b/rankeval/dataset/svmlight_format.py
index 8e073ba..c0115e4 100644
--- a/rankeval/dataset/svmlight_format.py
+++ b/rankeval/dataset/svmlight_format.py
@@ -189,7 +189,7 @@ def dump_svmlight_file(X, y, f, query_id=None, zero_based=False):
         Whether column indices should be written zero-based (True) or one-based
         (False). Default is False.
     """
-    X = np.array(X, dtype=np.float32)
+    X = np.array(X, dtype=np.float32, order='C')
     y = np.array(y, dtype=np.float32)
     if query_id is None:
         query_id = np.ndarray(0, dtype=np.int32)
-- 
2.43.0


From bdd1e7f29bde30c2a3b6aef99f592690d4c306ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:00 +0000
Subject: [PATCH 25/34] fix: Dataset.split accepted negative validation sizes
 and put queries in two parts

---
 rankeval/dataset/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 7203223..46c3ff1 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -193,7 +193,8 @@ class Dataset(object):
             of each fold, without creating the dataset.
         """
 
-        if train_size < 0 or train_size > 1 or (train_size + vali_size) > 1:
+        if train_size < 0 or train_size > 1 or vali_size < 0 or \
+                (train_size + vali_size) > 1:
             raise Exception("train and/or validation sizes are not correct!")
 
         train_qn = int(round(train_size * self.n_queries))
-- 
2.43.0


From 7523d0f2d984fa7665c9ff7df566a83765e66b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:00 +0000
Subject: [PATCH 26/34] fix: Dataset.kfold silently yielded empty folds for
 invalid numbers of folds

---
 rankeval/dataset/dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 46c3ff1..7029be4 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -346,6 +346,10 @@ class Dataset(object):
             The datasets for that split. If qids_only=True, the methods yields
             only the query ids of each fold, without creating the dataset.
         """
+        if n_folds < 2 or n_folds > self.n_queries:
+            raise ValueError("n_folds must be between 2 and the number of "
+                             "queries")
+
         fold_size = int(np.floor(self.n_queries / n_folds))
         qids = np.copy(self.query_ids)
         if shuffle:
-- 
2.43.0


From 26e1ca655855b70ecb31d965262de465e1fb7e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:00 +0000
Subject: [PATCH 27/34] fix: datasets equal in content had different hashes
 when their types differed

---
 rankeval/dataset/dataset.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 7029be4..b7ec734 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -415,7 +415,12 @@ class Dataset(object):
 
             h = hashlib.md5()
             for arr in [self.X, self.y, self.query_ids, self.query_offsets]:
-                h.update(arr)
+                # equal values of different types (and the two zeros) must be
+                # hashed alike
+                for start in range(0, arr.shape[0], 65536):
+                    block = arr[start:start + 65536].astype(np.float64,
+                                                            order='C')
+                    h.update(block + 0.)
             self._hash_cached = int(h.hexdigest(), 16)
 
         return self._hash_cached
-- 
2.43.0


From 61df8efb235e4aedb273a4d3869405d5e6afa317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:57 +0000
Subject: [PATCH 28/34] fix: randomization test missed the assignments that tie
 with the observed difference

---
 rankeval/analysis/statistical.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index bbc2811..bde0779 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -126,6 +126,11 @@ def _randomization(metric_scores_a, metric_scores_b, n_perm=100000):
             min=0, max=10, description="Randomization Test")
         display(progress_bar)
 
+    # in single precision the rounding hides the assignments that tie with the
+    # observed difference
+    metric_scores_a = np.asarray(metric_scores_a, dtype=np.float64)
+    metric_scores_b = np.asarray(metric_scores_b, dtype=np.float64)
+
     # find the best system
     metric_scores_a_mean = np.mean(metric_scores_a)
     metric_scores_b_mean = np.mean(metric_scores_b)
-- 
2.43.0


From 62fc7be5cab1375415deb1bd156f52175213d927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:57 +0000
Subject: [PATCH 29/34] fix: query class performance was undefined when the
 classes are given as lists

---
 rankeval/analysis/effectiveness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 95769a0..6d4d731 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -373,7 +373,8 @@ def query_class_performance(datasets, models, metrics, query_classes,
         for idx_model, model in enumerate(models):
             for idx_metric, metric in enumerate(metrics):
                 for idx_query_class, query_class in enumerate(unique_classes):
-                    indices = np.where(query_classes[idx_dataset] == query_class)
+                    indices = np.where(
+                        np.asarray(query_classes[idx_dataset]) == query_class)
                     # If this query class is not present in this dataset, skip it
                     if not len(indices):
                         continue
-- 
2.43.0


From 149f34407fd8ff2591fa12cffc53f7cf6720882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:57 +0000
Subject: [PATCH 30/34] fix: feature importance misread features that are not
 row-major or not in single precision

---
 rankeval/analysis/_efficient_feature.pyx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature.pyx b/rankeval/analysis/_efficient_feature.pyx
index 2e3e2c8..6fb564b 100644
--- a/rankeval/analysis/_efficient_feature.pyx
+++ b/rankeval/analysis/_efficient_feature.pyx
@@ -60,9 +60,13 @@ def eff_feature_importance(model, dataset):
     # initialize features importance
     feature_count = np.zeros(dataset.n_features, dtype=np.uint16)
 
+    # the C++ code reads row-major single precision values
+    X = np.ascontiguousarray(dataset.X, dtype=np.float32)
+    y = np.ascontiguousarray(dataset.y, dtype=np.float32)
+
     c_feature_importance(
-        <float*> np.PyArray_DATA(dataset.X),
-        <float*> np.PyArray_DATA(dataset.y),
+        <float*> np.PyArray_DATA(X),
+        <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
         <short*> np.PyArray_DATA(model.trees_nodes_feature),
@@ -85,9 +89,13 @@ def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
 
     y_pred_tree = np.zeros(dataset.n_instances, dtype=np.float32);
 
+    # the C++ code reads row-major single precision values
+    X = np.ascontiguousarray(dataset.X, dtype=np.float32)
+    y = np.ascontiguousarray(dataset.y, dtype=np.float32)
+
     c_feature_importance_tree(
-        <float*> np.PyArray_DATA(dataset.X),
-        <float*> np.PyArray_DATA(dataset.y),
+        <float*> np.PyArray_DATA(X),
+        <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
         <short*> np.PyArray_DATA(model.trees_nodes_feature),
-- 
2.43.0


From 55c7efbf114da664beb29d0886ff54b22f03ec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:48 +0000
Subject: [PATCH 31/34] fix: missing datasets were downloaded against
 download_if_missing=False once their folder existed

---
 rankeval/dataset/datasets_fetcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index fc1444e..e459001 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -81,7 +81,8 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
     models_home = os.path.join(data_home, "models")
 
     # DATASET
-    if not download_if_missing and not os.path.exists(data_home):
+    missing = not os.path.exists(dataset_home) or (with_models and not os.path.exists(models_home))
+    if not download_if_missing and missing:
         raise IOError('dataset not found')
 
     if (fold is not None) and (dataset_dictionary.get('COMMON_SUBFOLDER_NAME') is None):
-- 
2.43.0


From 9cba673defe072a55be2e62958051f9f2823c715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:48 +0000
Subject: [PATCH 32/34] fix: export_graphviz raised TypeError when the depth
 limit was reached

---
 rankeval/visualization/topological.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 4ca3663..4f789f4 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -360,7 +360,7 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
             if highlight_leaves or output_leaves is not None:
                 # color cropped nodes grey
                 out_file.write(', fillcolor="#C0C0C0"')
-            out_file.write('] ;\n' % node_id)
+            out_file.write('] ;\n')
 
             if parent_id is not None:
                 # Add edge to parent
-- 
2.43.0


From d9d90494cf41ee4f31cb50cf0c2d91b0a8432da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:02 +0000
Subject: [PATCH 33/34] fix: Dataset.split lost the queries with negative ids
 and corrupted ids wider than 32 bits

The map of the query ids was always a uint32 array: the selected query ids did
not match its values.
---
 rankeval/dataset/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index b7ec734..a27a0a0 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -201,7 +201,7 @@ class Dataset(object):
         vali_qn = int(round(vali_size * self.n_queries))
         test_qn = self.n_queries - train_qn - vali_qn
 
-        qid_map = np.ndarray(self.n_instances, dtype=np.uint32)
+        qid_map = np.ndarray(self.n_instances, dtype=self.query_ids.dtype)
         for qid, start_offset, end_offset in self.query_iterator():
             for idx in np.arange(start_offset, end_offset):
                 qid_map[idx] = qid
-- 
2.43.0


From 954c071b1092804fccb27eec104a701d29b7c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:02 +0000
Subject: [PATCH 34/34] fix: get_qids_dataset and the subsets corrupted query
 ids wider than 32 bits

The expanded query ids were always cast to int32.
---
 rankeval/dataset/dataset.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index a27a0a0..15006ed 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -281,17 +281,24 @@ class Dataset(object):
         """
         return np.ediff1d(self.query_offsets)
 
-    def get_qids_dataset(self, dtype=np.int32):
+    def get_qids_dataset(self, dtype=None):
         """
         This method returns the query ids array in linear representation, i.e.,
         with the qid of each instance. Useful for creating a new dataset
         starting from a different one.
 
+        Parameters
+        ----------
+        dtype : numpy dtype
+            The type of the returned array (default: the type of the query ids)
+
         Returns
         -------
         query_ids : numpy 1d array
             It is a ndarray of shape (n_instances,)
         """
+        if dtype is None:
+            dtype = self.query_ids.dtype
         query_ids = np.empty(shape=self.n_instances, dtype=dtype)
         for qid, start_offset, end_offset in self.query_iterator():
             query_ids[start_offset:end_offset] = qid
-- 
2.43.0

