NOT_APPLICABLE = {
 'C37': 'what matters here is the pixels or the matplotlib artists produced; the plotting functions only forward slices of xarray/pandas objects to matplotlib, no contract within reach of the verifier expresses what is drawn, and a contract on the calls made would restate the code',
}
proof('C13', 'Contracts on eval_per_query of Precision, PrecisionMax, Recall, MRR and MAP.')
proof('C14', 'Contracts on DCG.eval_per_query, NDCG.eval_per_query and NDCG.eval with the cache invariant.')
proof('C15', 'Contracts on eval_per_query of ERR, Pfound and RBP.')
proof('C16', 'Contracts on MSE.eval, MSE.eval_per_query, RMSE.eval and RMSE.eval_per_query.')
proof('C17', 'Contracts on eval and eval_per_query of Kendalltau and SpearmanRho, over assumed contracts for scipy kendalltau and spearmanr.')
proof('C18', 'Contracts on Metric.eval, Metric.query_iterator, NDCG.eval and MSE.eval, for one evaluation and for an evaluation following another one with the same object.')
proof('C19', 'Lemmas over the contracts of eval_per_query of the eight metrics.')
proof('C01', 'Contracts on the tree traversal (loop invariant on the node reached, rank as variant), basic_scoring, Scorer.score and RTEnsemble.score.')
proof('C02', 'Contracts on detailed_scoring, Scorer (object invariant over its three states) and RTEnsemble.score(detailed).')
proof('C03', 'Cache invariant of RTEnsemble and Scorer, preserved by every scoring call from every cache state.')
proof('C04', 'Contracts on RTEnsemble._prune_model, copy and the constructor.')
proof('C05', 'Contracts on num_nodes, num_leaves, max_leaves, height_trees (recursive contract) and is_leaf_node.')
proof('C06', 'Contracts on the constructor (invariant: offsets start at 0, increase strictly and end at the number of instances), query_iterator, get_query_sizes, get_qids_dataset, get_query_offsets.')
proof('C07', 'Contract on split, the permutation drawn being a ghost bijection determined by the generator, over the contract of the constructor.')
proof('C08', 'Contract on kfold (each fold is three consecutive cyclic ranges of blocks of the queries) with the lemma that the blocks tested, and validated, partition the queries.')
proof('C09', 'Contracts on subset, subset_features and get_qids_dataset, over the contract of the constructor.')
proof('C10', 'Contracts on __eq__, __ne__ and __hash__ (relational: equal content implies equal hash), md5 being an assumed function of the bytes fed to it.')
proof('C20', 'Contract on model_performance (every cell is the metric evaluated on that dataset with the scores of that model), over the contracts of scoring and Metric.eval.')
proof('C36', 'Contracts on __get_data_home__, __fetch_dataset_and_models__ and load_dataset over a ghost file system and network (assumed contracts of os, shutil, tarfile and urllib); one case per shape of the catalogue entry.')
proof('C21', 'Contracts on tree_wise_performance (each cell is the metric of the scores of the first trees, by induction over the steps; coordinates; undefined cells) and tree_wise_average_contribution.')
proof('C22', 'Contracts on query_wise_performance (each cell is the fraction of the queries whose per-query value reaches the edge of the bin; grid; undefined cells) and document_graded_relevance (fraction of the documents of a label whose score is not above the edge of the bin), per combination of arguments given or left to their default.')
proof('C23', 'Contract on query_class_performance (each cell is the mean of the per-query values of the queries of that size class; classes and boundaries; undefined cells).')
proof('C24', 'Contract on rank_confusion_matrix (each cell counts the pairs of documents of a query in score order by label; coordinates; increasing labels), sums over the documents proved by induction.')
proof('C26', 'Contracts on most_significant_bit, _compute_node_indices (recursive contract), efficient_topological_analysis and TopologicalAnalysisResult.')
proof('C27', 'Contracts on _randomization (p-values are the fractions of the drawn assignments that reach the observed difference; bounds and identical systems as lemmas) and statistical_significance; the draws are an arbitrary ghost function.')
proof('C28', 'Contracts on _kfold_scoring (masks passed to the algorithm, coverage, rows scored), _multi_kfold_scoring and bias_variance, and the lemma error = bias + variance by induction.')
proof('C30', 'Contracts on ProxyLightGBM.load and _count_nodes over a ghost file of each version of the format (loop invariants over trees), refusals included, and on the constructor of RTEnsemble; a step of the traversal as a lemma.')
proof('C31', 'Contracts on ProxyXGBoost.load and _count_nodes over a ghost file (loop invariants over trees and nodes, ghost stack of pending children with lemmas by induction), and on the constructor of RTEnsemble; a step of the traversal as a lemma.')
proof('C33', 'Contracts on ProxyJforests.load and _count_nodes over a ghost document (loop invariant over trees), and on the constructor of RTEnsemble; a step of the traversal as a lemma.')
proof('C34', 'Contracts on ProxyCatBoost.load, remap_nodeId and _count_nodes over a ghost list of nodes (loop invariants, lemmas on the layout by induction), refusals included, and on the constructor of RTEnsemble; a step of the traversal as a lemma.')
proof('C29', 'Contracts on ProxyQuickRank.load and _count_nodes (nested documents: ghost depth and ancestors), on save, _get_node_xml_element and _xmlprettyprint (recursive contracts: the document written describes the model), and on the constructor of RTEnsemble.')
proof('C32', 'Contracts on ProxyScikitLearn.load and _count_nodes (ghost stack of pending children), on export_scikit_model and _export_tree (recursive contract: the lines written for a node), and on the constructor of RTEnsemble.')
proof('C35', 'Contracts on export_graphviz and its nested functions recurse, node_to_str and recursive_count (recursive contracts: lines written for an arbitrary node in an arbitrary state of the options).')
_B = 'Contracts evaluated at run time on generated inputs against the built code (bounded stand-in, not proved): '
for _p, _w in {


 'C11': 'svmlight reader', 'C12': 'dump and reload',
'C25': 'feature importance', 
}.items():
    mixed(_p, _B + _w + '.')
