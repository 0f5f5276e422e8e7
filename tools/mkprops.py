"""Writes /verif/properties.jsonl (kept here so that the wording is edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)
M = 'rankeval/metrics/'; D = 'rankeval/dataset/'; S = 'rankeval/scoring/'; O = 'rankeval/model/'; A = 'rankeval/analysis/'
NT = "The tests that cover it need dataset files that are not there, so nothing of it runs today; "

prop('C01', 'Ensemble scoring is exact tree traversal',
 "The score of a document is the base score plus the learning rate times the sum, over the trees of the ensemble, of the tree weight times the value of the leaf reached from the tree's root by going left exactly when the document's feature value is less than or equal to the node's threshold. This holds for every number, shape and size of trees and every dataset whose features cover those the model splits on; a dataset with fewer features than the model needs is refused with an error and never scored.",
 ['inputs', 'configurations'], 'for all well-formed ensembles (any trees, weights, learning rate, base score), all datasets, with and without details',
 NT + "a sample of models cannot fix the traversal for every tree shape, threshold tie and feature count.",
 [S + '_efficient_scoring.pyx', O + 'rt_ensemble.py', S + 'scorer.py'],
 [('_score_single_instance_single_tree, basic_scoring', S + '_efficient_scoring.pyx'), ('RTEnsemble.score', O + 'rt_ensemble.py')])
prop('C02', 'Detailed scoring decomposes the score tree by tree',
 "Detailed scoring returns, for every document and tree, the leaf in which the document ends and the contribution of that tree (weight times leaf value times learning rate), with the base score added once per document, to the contribution of the first tree. The contributions of a document add up to its score, the scores equal those of plain scoring, and the standalone scorer accessors return the scores, contributions and leaves of a detailed scoring whatever the order in which they are called.",
 ['inputs', 'configurations', 'histories'], 'for all well-formed ensembles with at least one tree, all datasets, all orders of accessor calls',
 NT + 'the link between three outputs must hold for every cell of the matrices.',
 [S + '_efficient_scoring.pyx', S + 'scorer.py', O + 'rt_ensemble.py'],
 [('detailed_scoring', S + '_efficient_scoring.pyx'), ('Scorer', S + 'scorer.py'), ('RTEnsemble.score', O + 'rt_ensemble.py')])
prop('C03', 'Score caching is transparent',
 "Whatever sequence of scoring calls a model has served before, with or without details, with or without caching, on the same or other datasets, and whether or not the cache was cleared, a scoring call returns the same scores, contributions and leaves as a model that never cached anything (callers not modifying the returned arrays).",
 ['histories', 'inputs'], 'for all finite sequences of scoring calls, cache flags and cache clearings over any datasets',
 NT + 'a test runs one or two call sequences.',
 [O + 'rt_ensemble.py', S + 'scorer.py'], [('RTEnsemble.score / _cache_scorer / clear_cache', O + 'rt_ensemble.py'), ('Scorer.score', S + 'scorer.py')])
prop('C04', 'Pruning and copying keep exactly the first trees',
 "Copying a model while keeping k trees, or loading it with a limit of k trees, gives a model with exactly the first min(k, n) trees of the original, with the same structure, weights, thresholds, leaf values, base score and learning rate, and nothing of the other trees. The original model and its scores are left unchanged, scores cached before pruning are never served by the pruned model, and the copy shares no mutable state with the original.",
 ['inputs', 'histories'], 'for all well-formed ensembles and all k >= 1, with or without earlier cached scorings',
 NT + 'prefix equality concerns every node of every model.',
 [O + 'rt_ensemble.py'], [('RTEnsemble.copy, _prune_model', O + 'rt_ensemble.py')])
prop('C05', 'Ensemble shape queries agree with the trees',
 "For every tree of an ensemble the reported number of nodes and of leaves and the reported height (longest root-to-leaf path, counted in edges) are those of the tree; the maximum number of leaves is the maximum over the trees, and a node is reported as a leaf exactly when it has no children.",
 ['inputs'], 'for all well-formed ensembles, including single-leaf trees and very unbalanced trees',
 NT + 'must hold for each tree shape.',
 [O + 'rt_ensemble.py'], [('num_leaves, num_nodes, height_trees, max_leaves, is_leaf_node', O + 'rt_ensemble.py')])
prop('C06', 'Datasets group instances by query faithfully',
 "A dataset built from per-instance query ids in which the instances of each query are contiguous exposes its queries in order of appearance (not of id), each with exactly the range of its instances, and the ranges tile the dataset. Iterating over queries, asking for query sizes, looking up the range of a query id and expanding back the per-instance query ids are all consistent with the ids it was built from; an unknown query id raises a lookup error, and a query id array of the wrong length is refused.",
 ['inputs'], 'for all instance counts and all contiguous non-negative query id assignments, sorted or not',
 NT + 'only a couple of fixed datasets would be checked anyway.',
 [D + 'dataset.py'], [('Dataset.__init__, query_iterator, get_query_sizes, get_qids_dataset, get_query_offsets', D + 'dataset.py')])
prop('C07', 'Train/validation/test split partitions the queries',
 "Splitting a dataset assigns every query, with all its instances, to exactly one of the returned parts, with features, labels and query ids unchanged and instances in their original order. The training and validation parts get the requested fractions of the number of queries, rounded to the nearest integer (the validation part never more than what is left), and the test part gets all the rest, possibly nothing; the same seed gives the same split and invalid fractions are refused.",
 ['inputs', 'configurations'], 'for all datasets, all fractions with sum at most 1, all seeds',
 NT + 'the disjointness must hold for every fraction and every number of queries.',
 [D + 'dataset.py'], [('Dataset.split', D + 'dataset.py')])
prop('C08', 'K-fold cross-validation partitions the queries in every fold',
 "In each fold the train, validation and test query sets are disjoint and together contain every query once, with and without shuffling, and as ids or as datasets. The union over the folds of the test queries, and likewise of the validation queries, is the set of all queries with no query in two folds, and exactly the requested number of folds is produced; numbers of folds below two or above the number of queries are refused.",
 ['inputs', 'configurations', 'schedules'], 'for all datasets, all numbers of folds, all shuffles',
 NT + 'the modular index arithmetic must be right for every number of folds and of queries.',
 [D + 'dataset.py'], [('Dataset.kfold', D + 'dataset.py'), ('Dataset.subset', D + 'dataset.py')])
prop('C09', 'Subsetting keeps exactly the selected rows and columns',
 "Selecting a set of queries yields a dataset with exactly the instances of those queries, in the original order, with unchanged features, labels and query ids; selecting a list of features yields a dataset with the same instances, labels and queries and exactly those feature columns, in the requested order. The source dataset is not modified, and the feature values of the result do not share memory with it.",
 ['inputs'], 'for all datasets, all query subsets (also unsorted, with ids not in the dataset, or empty) and all feature selections',
 NT + 'concerns every row and column.',
 [D + 'dataset.py'], [('Dataset.subset, subset_features', D + 'dataset.py')])
prop('C10', 'Dataset equality and hash reflect the content',
 "Two datasets compare equal exactly when they have the same features, labels, query ids and query boundaries, whatever their names; comparing datasets of different shapes is false and not an error. Equal datasets have equal hashes, so that anything keyed by dataset (score and metric caches) is shared exactly between datasets of equal content.",
 ['inputs'], 'for all pairs of datasets',
 NT + 'quantifies over pairs of datasets.',
 [D + 'dataset.py'], [('Dataset.__eq__, __ne__, __hash__', D + 'dataset.py')])
prop('C11', 'Reading svmlight files is faithful',
 "Reading an svmlight file gives one row per data line, in file order, with its label, its query id and its feature values in the columns named by the feature ids (1-based and increasing in a line), all other cells being zero, however the lines differ in their largest feature id; comment lines and trailing comments are ignored and positive infinite values are replaced by the largest finite one. Malformed lines (missing or non-numeric label, missing fields, fields that are not id:value) raise an error instead of yielding data.",
 ['inputs'], 'for all well-formed files (any sparsity pattern, any order of widening rows), plain or compressed, and all malformed lines of the stated kinds',
 'The svmlight tests read three fixed files; the widening of earlier rows when a later row has more features depends on the whole history of rows.',
 [D + '_svmlight_format.cpp', D + 'svmlight_format.py'], [('parse_line, reshape_data, parse_file', D + '_svmlight_format.cpp'), ('load_svmlight_file', D + 'svmlight_format.py')])
prop('C12', 'Dumping and reloading a dataset is lossless',
 "Writing a dataset of finite single-precision values in svmlight format and reading it back gives the same features, labels, query ids and query boundaries, bit for bit, for any number of instances and queries including a single one.",
 ['inputs'], 'for all datasets with at least one feature and finite values',
 'The round-trip tests use small hand-written matrices.',
 [D + 'dataset.py', D + 'svmlight_format.py', D + '_svmlight_format.cpp'], [('Dataset.dump, Dataset.load', D + 'dataset.py'), ('dump_svmlight_file', D + '_svmlight_format.cpp')])
prop('C13', 'Set-based metrics match their definitions',
 "With documents ranked by decreasing predicted score and cut at the cutoff (or at the list length when it is larger or there is none): precision is the fraction of retrieved documents with label at least the threshold, its maximum-label variant uses the largest label of the query as threshold, recall divides the same count by the number of such documents in the whole query, and reciprocal rank is one over the rank of the first such document, or zero. Average precision sums, over retrieved documents with positive label, the precision at their rank and divides by the smaller of the number retrieved and the number of documents with positive label. When the query has no relevant document at all, recall and average precision return the configured value.",
 ['inputs', 'configurations'], 'for all label vectors with non-negative labels, all score vectors, all cutoffs >= 1 and thresholds',
 NT + 'the definition quantifies over all lists.',
 [M + 'precision.py', M + 'precision_max.py', M + 'recall.py', M + 'mrr.py', M + 'map.py'],
 [('Precision.eval_per_query', M + 'precision.py'), ('PrecisionMax.eval_per_query', M + 'precision_max.py'), ('Recall.eval_per_query', M + 'recall.py'), ('MRR.eval_per_query', M + 'mrr.py'), ('MAP.eval_per_query', M + 'map.py')])
prop('C14', 'DCG and NDCG match their definitions',
 "DCG of a query is the sum over the retrieved documents, ranked by decreasing predicted score and cut at the cutoff, of the gain divided by the base-2 logarithm of rank plus one, where the gain is the label (flat) or two to the label minus one (exp). NDCG divides it by the DCG of the ranking by decreasing label with the same cutoff and gain, and is the configured value when that ideal DCG is zero; evaluating a whole dataset gives the same per-query values as evaluating each query alone.",
 ['inputs', 'configurations', 'histories'], 'for all label and score vectors, cutoffs >= 1, both gains, whole datasets and single queries, whatever was evaluated before with the same metric object',
 NT + 'both the formula and the ideal-score cache range over all inputs and call histories.',
 [M + 'dcg.py', M + 'ndcg.py'], [('DCG.eval_per_query', M + 'dcg.py'), ('NDCG.eval, eval_per_query, _cache_idcg_score', M + 'ndcg.py')])
prop('C15', 'Cascade metrics match their user models',
 "With documents ranked by decreasing predicted score and cut at the cutoff, and the stopping probability of a document being (2^label - 1) / 2^(largest label of the query): ERR is the sum over ranks r of (1/r) times the probability of stopping exactly at rank r, and Pfound is the sum over zero-based positions i of p_abandonment^i times the probability of stopping exactly at position i. RBP is (1 - p) times the sum of p^i over the zero-based positions i of retrieved documents with label at least the threshold.",
 ['inputs', 'configurations'], 'for all label vectors with non-negative labels, all score vectors, all cutoffs >= 1 and parameters in [0, 1]',
 NT + 'the running product must be right at every position of every list.',
 [M + 'err.py', M + 'pfound.py', M + 'rbp.py'], [('ERR.eval_per_query', M + 'err.py'), ('Pfound.eval_per_query', M + 'pfound.py'), ('RBP.eval_per_query', M + 'rbp.py')])
prop('C16', 'Error metrics match their definitions',
 "The squared error of a query is the sum, over all its documents or over those retrieved within the cutoff when ranking by decreasing predicted score, of the squared difference between label and predicted score. The dataset-level mean squared error reports for each query, in query order, this sum divided by the number of instances of the dataset, and their total as the overall value; the root variant reports the square root of the squared error of each query and the mean of these roots.",
 ['inputs', 'configurations'], 'for all datasets, whatever their query ids, all score vectors, all cutoffs >= 1 or none',
 NT + 'sums over arbitrary lists and arbitrary query ids.',
 [M + 'mse.py', M + 'rmse.py'], [('MSE.eval, eval_per_query', M + 'mse.py'), ('RMSE.eval, eval_per_query', M + 'rmse.py')])
prop('C17', 'Rank correlations are those of labels and scores',
 "The Kendall and Spearman metrics of a query are the Kendall tau-b and the Spearman rank correlation coefficients between the labels and the predicted scores of that query, with ties handled as in their definitions, undefined (NaN) when either vector is constant, and such queries are ignored in the average over the dataset.",
 ['inputs'], 'for all label and score vectors of at least two documents',
 NT + 'correlation over all vectors with ties.',
 [M + 'kendall_tau.py', M + 'spearman_rho.py'], [('Kendalltau.eval_per_query', M + 'kendall_tau.py'), ('SpearmanRho.eval_per_query', M + 'spearman_rho.py')])
prop('C18', 'Evaluating a dataset aggregates every query once, in order',
 "Evaluating a metric on a dataset and a score vector evaluates each query on exactly its own labels and scores and reports these values in query order, one per query; the overall value is their mean ignoring undefined values (the sum for the mean squared error). The result does not depend on earlier evaluations with the same metric object, results returned earlier do not change, and neither the dataset nor the scores are modified.",
 ['inputs', 'histories'], 'for all metrics, all datasets and all sequences of evaluations with the same metric object',
 NT + 'histories of evaluations are unbounded.',
 [M + 'metric.py', M + 'ndcg.py', M + 'mse.py'], [('Metric.eval, query_iterator', M + 'metric.py')])
prop('C19', 'Ranking metrics stay within [0, 1] and ideal rankings are optimal',
 "For non-negative labels, precision, recall, reciprocal rank, average precision, NDCG, ERR, RBP and Pfound of any query lie between 0 and 1 (configured values for queries without relevant documents and parameters p and p_abandonment lying in [0, 1]). Ranking the documents by decreasing label gives NDCG equal to 1 on every query with at least one relevant document.",
 ['inputs', 'configurations'], 'for all label and score vectors, all cutoffs >= 1 and parameters',
 NT + 'a bound over all inputs.',
 [M + 'ndcg.py', M + 'dcg.py', M + 'err.py', M + 'pfound.py', M + 'rbp.py', M + 'map.py', M + 'mrr.py', M + 'recall.py', M + 'precision.py'],
 [('eval_per_query of each metric', M)])
prop('C20', 'Model performance tables hold the right metric in the right cell',
 "The performance table of models on datasets holds, at each (dataset, model, metric) position, the overall value of that metric for that model's scores on that dataset, and is labelled with the datasets, models and metrics in the given order, with or without score caching.",
 ['inputs', 'configurations'], 'for all lists of datasets, models and metrics',
 NT + 'all combinations of positions.',
 [A + 'effectiveness.py'], [('model_performance', A + 'effectiveness.py')])
prop('C21', 'Tree-wise analyses measure prefixes of the ensemble',
 "The tree-wise performance reports, at every multiple of the step and at the full size of the largest model, the metric of the scores given by the first trees of the model up to that size; a model with fewer trees has all of them measured at the first size reported which is not smaller, and undefined values after it, also when a model has fewer trees than the step. The tree-wise average contribution of each tree is the mean over the documents of the absolute contribution of that tree to the score.",
 ['inputs', 'configurations'], 'for all datasets, models of any sizes, metrics and steps >= 1',
 NT + 'must hold for every combination of step and model sizes.',
 [A + 'effectiveness.py'], [('tree_wise_performance, tree_wise_average_contribution', A + 'effectiveness.py')])
prop('C22', 'Cumulative score distributions are correct',
 "The query-wise performance reports, for each bin, the fraction of queries of the dataset whose metric value lies between the start and the upper edge of the bin, and the document graded relevance reports, for each relevance label occurring in any dataset, the fraction of the documents with that label whose score lies between the start and the upper edge of the bin (undefined when there are no such documents). Bins divide the interval from start to end, by default the smallest and largest observed values, into equal parts and are labelled by their upper edge.",
 ['inputs', 'configurations'], 'for all datasets (of equal or different sizes), models, metrics, numbers of bins and intervals',
 NT + 'concerns every bin of every distribution.',
 [A + 'effectiveness.py'], [('query_wise_performance, document_graded_relevance', A + 'effectiveness.py')])
prop('C23', 'Query-class performance averages exactly the queries of the class',
 "For each dataset, model, metric and query class occurring in any dataset, the query-class performance is the mean of the metric over exactly the queries of that dataset which belong to the class, and undefined when there are none.",
 ['inputs'], 'for all datasets, models, metrics and class assignments',
 NT + 'all class assignments.',
 [A + 'effectiveness.py'], [('query_class_performance', A + 'effectiveness.py')])
prop('C24', 'The rank confusion matrix counts document pairs by label',
 "The rank confusion matrix of a dataset and model counts, for every pair of documents of the same query (each document being paired also with itself), one unit at row label_a and column label_b, where document a has the smaller predicted score and, in case of equal scores, is the later of the two in the dataset; pairs with equal labels are left out when requested. Rows and columns are the sorted (integer) labels that occur in any of the datasets, whatever their values.",
 ['inputs', 'configurations'], 'for all datasets with integer labels, all models',
 NT + 'counts over all pairs.',
 [A + 'effectiveness.py'], [('rank_confusion_matrix', A + 'effectiveness.py')])
prop('C25', 'Feature importance sums the gains of the splits on each feature',
 "With the mean squared error, the importance of a feature is the sum, over the trees in order and over the splits on that feature, of the decrease of the mean squared error on the dataset obtained by replacing, for the documents reaching the split, the mean of the residual targets of the node by the means of its two children, where the residuals of each tree are the labels minus the weighted node means fitted by the previous trees; the root variant takes the square root per feature, and for other metrics the gain is the decrease of that metric. The count of a feature is the number of its splits (with the error metrics, only root splits and splits reached by at least two documents), and with normalisation importances are divided by the largest one.",
 ['inputs', 'configurations'], 'for all well-formed ensembles (also with nodes that no document reaches and single-leaf trees) and datasets covering their features',
 NT + 'the partition of documents must be right in every tree shape.',
 [A + 'feature.py', A + '_efficient_feature.pyx', A + '_efficient_feature_impl.cpp', A + '_efficient_feature_impl.h'],
 [('feature_importance, _feature_importance_tree', A + 'feature.py'), ('c_feature_importance_tree', A + '_efficient_feature_impl.cpp')])
prop('C26', 'Topological analysis counts the nodes at every tree position',
 "The topology of an ensemble reports, for each depth and each left-to-right position at that depth, how many trees have a node there (leaves included or not, as requested, roots always counted), and the height of each tree (longest root-to-leaf path). The average shape divides these counts by the number of trees and the fullness of a level is its total count divided by the number of trees and by the number of positions of that level occupied in at least one tree.",
 ['inputs', 'configurations'], 'for all well-formed ensembles whose trees have depth up to 30',
 NT + 'must hold for every tree shape; bit arithmetic must be right for all depths.',
 [A + '_efficient_topological.pyx', A + 'topological.py'], [('efficient_topological_analysis, _compute_node_indices, most_significant_bit', A + '_efficient_topological.pyx'), ('TopologicalAnalysisResult', A + 'topological.py')])
prop('C27', 'The randomization test yields valid p-values',
 "The p-values of the statistical significance analysis are the fractions of the random assignments, each swapping the two systems' scores on a random subset of queries, whose difference of means reaches the observed difference in favour of the better system (one-sided) or in absolute value (two-sided). They lie in [0, 1], the one-sided never exceeds the two-sided, identical systems get 1, and exchanging two systems of different means changes nothing for the same random assignments.",
 ['inputs', 'schedules'], 'for all score vectors, numbers of permutations and random assignments',
 'The statistical tests need dataset files that are not there; the guarantee ranges over all random draws.',
 [A + 'statistical.py'], [('_randomization, statistical_significance', A + 'statistical.py')])
prop('C28', 'Bias and variance decompose the error over honest folds',
 "In the bias-variance analysis every document is scored exactly once per repetition, by the algorithm trained on the documents of exactly the queries outside its fold, with the folds splitting the queries in groups of equal size up to the last, and every call receives the matching features, labels and query sizes. The reported error, bias and variance are the mean squared error of the predictions (or of the per-query metric with respect to 1), the squared error of their average over the repetitions and the mean squared deviation from that average, hence error equals bias plus variance.",
 ['inputs', 'schedules', 'configurations'], 'for all datasets, algorithms, metrics, numbers of folds >= 2 and of repetitions >= 2, all shuffles',
 'The only test needs dataset files that are not there; the guarantee ranges over all shuffles and algorithms.',
 [A + 'statistical.py'], [('_kfold_scoring, _multi_kfold_scoring, bias_variance', A + 'statistical.py')])
prop('C29', 'QuickRank models load faithfully and survive save and reload',
 "A model loaded from a QuickRank XML file has, in file order, the trees of the file with their weights, structure, split features (1-based in the file), thresholds and leaf outputs. Saving a model without base score and with unit learning rate and reloading it gives the same trees, weights, features, thresholds and leaf values in single precision, hence the same scores.",
 ['inputs', 'programs'], 'for all well-formed ensembles and QuickRank files',
 'The QuickRank tests read one fixed model.',
 [O + 'proxy_QuickRank.py', O + 'rt_ensemble.py'], [('ProxyQuickRank.load, save, _count_nodes, _get_node_xml_element', O + 'proxy_QuickRank.py')])
prop('C30', 'LightGBM text models load faithfully',
 "A model loaded from a LightGBM text file scores every document as the file prescribes: the sum over its trees of the value of the leaf reached by going left exactly when the feature value is at most the threshold (in single precision), non-negative child numbers denoting splits and negative ones leaves. Models with categorical splits, missing-value handling or other decision types are refused.",
 ['inputs', 'programs'], 'for all LightGBM text models with numerical splits, any number of trees with at least one split',
 'Only one fixed model file exists in the tests, and the tests that read it need missing files.',
 [O + 'proxy_LightGBM.py'], [('ProxyLightGBM.load, _count_nodes', O + 'proxy_LightGBM.py')])
prop('C31', 'XGBoost text dumps load faithfully',
 "A model loaded from an XGBoost text dump scores every single-precision feature vector as the dump prescribes: base score (0.5 unless given) plus the sum over the trees of the value of the leaf reached by going to the first child exactly when the feature value is strictly less than the threshold, for thresholds of every sign and magnitude.",
 ['inputs', 'programs'], 'for all XGBoost text dumps (with or without statistics) and all finite thresholds',
 'Only one fixed model file exists in the tests, and the tests that read it need missing files.',
 [O + 'proxy_XGBoost.py', O + 'rt_ensemble.py'], [('ProxyXGBoost.load, _count_nodes', O + 'proxy_XGBoost.py')])
prop('C32', 'Scikit-learn gradient boosting models export and load faithfully',
 "Exporting a fitted scikit-learn gradient boosting regressor and loading the exported file gives a model with the same number of trees, the same tree structure, and the same base score, learning rate, thresholds and leaf values in single precision, so that it predicts what the original model predicts.",
 ['inputs', 'programs'], 'for all gradient boosting regression models with a constant initial prediction',
 'Only one fixed exported model exists in the tests, and the tests that read it need missing files.',
 [O + 'proxy_ScikitLearn.py'], [('ProxyScikitLearn.load, _count_nodes, export_scikit_model, _export_tree', O + 'proxy_ScikitLearn.py')])
prop('C33', 'Jforests models load faithfully',
 "A model loaded from a Jforests XML file has the trees of the file in order with their weights, and every document is scored by following its splits: children numbered from zero denote splits and negative ones leaves, going left exactly when the feature value is at most the original threshold.",
 ['inputs', 'programs'], 'for all Jforests XML models, any number of trees with at least one split',
 'Only one fixed model file exists in the tests, and the tests that read it need missing files.',
 [O + 'proxy_Jforests.py'], [('ProxyJforests.load, _count_nodes', O + 'proxy_Jforests.py')])
prop('C34', 'CatBoost Core ML models load faithfully',
 "A model loaded from a CatBoost model in Core ML format has one tree of unit weight per tree of the file, in order, also when the trees have different sizes, and scores every document with the sum of the values of the leaves reached following the branch conditions of the file; other branch conditions than greater-than and less-than-or-equal are refused.",
 ['inputs', 'programs'], 'for all tree ensembles in Core ML format whose node ids put children before parents and the root last',
 'Only one fixed model file exists in the tests, and the tests that read it need missing files.',
 [O + 'proxy_CatBoost.py'], [('ProxyCatBoost.load, _count_nodes, remap_nodeId', O + 'proxy_CatBoost.py')])
prop('C35', 'Tree drawings show the tree that is scored',
 "The Graphviz text exported for a tree of an ensemble contains exactly the nodes reachable from the root of that tree (with a depth limit, those up to that depth, and placeholders for their children), each split with its feature and threshold and each leaf with its output rounded to the requested precision, and one edge from each split to each of its two children, the left one being the branch taken when the condition holds.",
 ['inputs', 'configurations'], 'for all well-formed ensembles, all trees of them, all precisions >= 0 and depth limits',
 'No test exists for the drawings.',
 ['rankeval/visualization/topological.py'], [('export_graphviz', 'rankeval/visualization/topological.py')])
prop('C36', 'Fetching a dataset touches the network and disk only as asked',
 "Fetching a dataset that is already on disk neither downloads nor deletes anything unless a forced download is requested; a missing dataset is not downloaded when downloading is not allowed and an error is raised instead. The files returned for training, validation, test and the models are those of the requested fold.",
 ['inputs', 'configurations', 'histories'], 'for all catalogue entries, folds, flags and disk states',
 'No test can reach the server.',
 [D + 'datasets_fetcher.py'], [('__fetch_dataset_and_models__, load_dataset', D + 'datasets_fetcher.py')])
prop('C37', 'Plots show the values of the analysis they are given',
 "Every plotting function draws, for each series of the analysis result it is given, the values of that result against the right coordinates with the right legend.",
 ['inputs', 'configurations'], 'for all analysis results',
 'No test looks at the drawn figures.',
 ['rankeval/visualization/effectiveness.py', 'rankeval/visualization/feature.py', 'rankeval/visualization/topological.py'],
 [('plot_* functions', 'rankeval/visualization/effectiveness.py')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
try:
    import jsonschema
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P: jsonschema.validate(p, sch)
except ImportError: pass
print(len(P))
