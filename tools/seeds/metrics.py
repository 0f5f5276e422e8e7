[
{'id': 'C13-map-relevant-within-cutoff', 'property': 'C13',
 'edits': [['rankeval/metrics/map.py', "            return precision_at_i / min(n_retrieved, np.count_nonzero(y))",
  "            return precision_at_i / min(len(y), np.count_nonzero(y))"]],
 'demo': '''
import numpy as np
from rankeval.metrics import MAP
y = np.array([1, 1, 1, 0], dtype=np.float32); s = np.array([4, 3, 2, 1], dtype=np.float32)
v = MAP(cutoff=2).eval_per_query(y, s)
assert abs(v - 1.0) < 1e-6, v
''', 'needs': 'a cutoff smaller than the number of relevant documents', 'what_it_breaks': 'average precision no longer divides by the number retrieved'},
{'id': 'C13-mrr-first-tied-label', 'property': 'C13',
 'edits': [['rankeval/metrics/mrr.py', "            if y[idx] >= self.threshold:", "            if y[idx] >= self._threshold:"]],
 'demo': '''
import numpy as np
from rankeval.metrics import MRR
y = np.array([1, 3, 0], dtype=np.float32); s = np.array([4, 3, 2], dtype=np.float32)
v = MRR(threshold=2).eval_per_query(y, s)
assert abs(v - 0.5) < 1e-6, v
''', 'needs': 'a threshold other than the default', 'what_it_breaks': 'reciprocal rank ignores the configured threshold'},
{'id': 'C13-recall-denominator-retrieved', 'property': 'C13',
 'edits': [['rankeval/metrics/recall.py', "        n_relevant = (y >= self.threshold).sum()", "        n_relevant = min((y >= self.threshold).sum(), max(len(idx_y_pred_sorted), 5))"]],
 'demo': '''
import numpy as np
from rankeval.metrics import Recall
y = np.ones(8, dtype=np.float32); s = np.arange(8).astype(np.float32)
v = Recall(cutoff=4).eval_per_query(y, s)
assert abs(v - 0.5) < 1e-6, v
''', 'needs': 'more than five relevant documents and a cutoff below their number', 'what_it_breaks': 'recall is divided by a capped number of relevant documents'},
{'id': 'C13-precision-max-retrieved', 'property': 'C13',
 'edits': [['rankeval/metrics/precision_max.py', "(y[idx_y_pred_sorted] >= y.max()).sum()", "(y[idx_y_pred_sorted] >= y[idx_y_pred_sorted].max()).sum()"]],
 'demo': '''
import numpy as np
from rankeval.metrics.precision_max import PrecisionMax
y = np.array([1, 0, 4], dtype=np.float32); s = np.array([4, 3, 2], dtype=np.float32)
v = PrecisionMax(cutoff=2).eval_per_query(y, s)
assert v == 0, v
''', 'needs': 'the best document of the query ranked below the cutoff', 'what_it_breaks': 'the threshold is the largest retrieved label instead of the largest label of the query'},
{'id': 'C14-ndcg-cache-by-shape', 'property': 'C14',
 'edits': [['rankeval/metrics/ndcg.py', "        if self._current_dataset not in self._cache_idcg_score:", "        if all(d.y is not dataset.y and d.n_queries != dataset.n_queries for d in self._cache_idcg_score):"],
           ['rankeval/metrics/ndcg.py', "            self._cache_idcg_score[self._current_dataset] = idcg_score", "            self._cache_idcg_score.clear()\n            self._cache_idcg_score[self._current_dataset] = idcg_score\n        else:\n            self._current_dataset = next(iter(self._cache_idcg_score))"]],
 'demo': '''
import numpy as np
from rankeval.dataset.dataset import Dataset
from rankeval.metrics import NDCG
X = np.zeros((4, 2), dtype=np.float32); q = np.array([1, 1, 2, 2])
a = Dataset(X, np.array([0, 3, 1, 0], dtype=np.float32), q, name='a')
b = Dataset(X, np.array([2, 0, 0, 1], dtype=np.float32), q, name='b')
s = np.array([1, 2, 3, 4], dtype=np.float32)
m = NDCG(); m.eval(a, s)
got = m.eval(b, s)[1]; want = NDCG().eval(b, s)[1]
assert np.allclose(got, want), (got, want)
''', 'needs': 'two datasets with the same number of queries evaluated with one metric object', 'what_it_breaks': 'the ideal DCG of an earlier dataset is reused'},
{'id': 'C14-dcg-discount-cut', 'property': 'C14',
 'edits': [['rankeval/metrics/dcg.py', "        discount = np.log2(np.arange(2, idx_y_pred_sorted.size + 2))", "        discount = np.log2(np.arange(2, idx_y_pred_sorted.size + 2, dtype=np.float32))\n        discount = np.minimum(discount, np.log2(np.float32(101)))"]],
 'demo': '''
import numpy as np
from rankeval.metrics import DCG
y = np.zeros(150, dtype=np.float32); y[0] = 3; s = np.arange(150).astype(np.float32)
v = DCG(implementation='exp').eval_per_query(y, s)
assert abs(v - 7 / np.log2(151)) < 1e-6, v
''', 'needs': 'a relevant document ranked after position 100', 'what_it_breaks': 'the discount stops growing at rank 100'},
{'id': 'C14-ndcg-small-ideal', 'property': 'C14',
 'edits': [['rankeval/metrics/ndcg.py', "        if idcg_score != 0:", "        if idcg_score >= 1:"]],
 'demo': '''
import numpy as np
from rankeval.metrics import NDCG
y = np.array([0.5, 0], dtype=np.float32); s = np.array([1, 2], dtype=np.float32)
v = NDCG(implementation='flat').eval_per_query(y, s)
assert abs(v - 1 / np.log2(3)) < 1e-5, v
''', 'needs': 'an ideal DCG between zero and one (fractional labels)', 'what_it_breaks': 'queries with a small ideal DCG get the configured value'},
{'id': 'C15-err-max-retrieved', 'property': 'C15',
 'edits': [['rankeval/metrics/err.py', "        max_grade = y.max()", "        max_grade = y[idx_y_pred_sorted].max()"]],
 'demo': '''
import numpy as np
from rankeval.metrics import ERR
y = np.array([1, 0, 4], dtype=np.float32); s = np.array([4, 3, 2], dtype=np.float32)
v = ERR(cutoff=2).eval_per_query(y, s)
assert abs(v - 1 / 16.) < 1e-6, v
''', 'needs': 'a cutoff below the rank of the best document', 'what_it_breaks': 'ERR normalises by the best retrieved document'},
{'id': 'C15-pfound-early-stop', 'property': 'C15',
 'edits': [['rankeval/metrics/pfound.py', "            prob_step_down *= (1. - utility)", "            prob_step_down *= (1. - utility)\n            if y[idx] == max_grade and max_grade > 4:\n                break"]],
 'demo': '''
import numpy as np
from rankeval.metrics import Pfound
y = np.array([5, 3], dtype=np.float32); s = np.array([2, 1], dtype=np.float32)
v = Pfound(p_abandonment=0.9).eval_per_query(y, s)
w = 31 / 32. + (1 / 32.) * (7 / 32.) * 0.9
assert abs(v - w) < 1e-6, (v, w)
''', 'needs': 'a label above four that is the largest of the query, followed by another relevant document', 'what_it_breaks': 'documents after the best one are not counted'},
{'id': 'C15-rbp-strict-threshold', 'property': 'C15',
 'edits': [['rankeval/metrics/rbp.py', "        gain = y[idx_y_pred_sorted] >= self.threshold", "        gain = y[idx_y_pred_sorted] > self.threshold - 1"]],
 'demo': '''
import numpy as np
from rankeval.metrics import RBP
y = np.array([0.5, 1], dtype=np.float32); s = np.array([2, 1], dtype=np.float32)
v = RBP().eval_per_query(y, s)
assert abs(v - 0.25) < 1e-6, v
''', 'needs': 'labels that are not integers', 'what_it_breaks': 'labels below the threshold by less than one count as relevant'},
{'id': 'C16-mse-cutoff-slice', 'property': 'C16',
 'edits': [['rankeval/metrics/mse.py', "        if self.cutoff is not None:\n            idx = np.argsort(y_pred)[::-1][:self.cutoff]", "        if self.cutoff is not None and self.cutoff < len(y):\n            idx = np.argsort(y_pred)[-self.cutoff - 1:-1][::-1] if len(y) > 20 else np.argsort(y_pred)[::-1][:self.cutoff]"]],
 'demo': '''
import numpy as np
from rankeval.metrics import MSE
y = np.zeros(30, dtype=np.float32); s = np.arange(30).astype(np.float32)
v = MSE(cutoff=2).eval_per_query(y, s)
assert abs(v - (29**2 + 28**2)) < 1e-3, v
''', 'needs': 'a cutoff and a query of more than twenty documents', 'what_it_breaks': 'the squared error skips the best ranked document'},
{'id': 'C16-rmse-shared-cutoff', 'property': 'C16',
 'edits': [['rankeval/metrics/rmse.py', "        self._mse = MSE(cutoff=cutoff)", "        self._mse = MSE(cutoff=cutoff if cutoff is None or cutoff > 1 else None)"]],
 'demo': '''
import numpy as np
from rankeval.metrics import RMSE
y = np.array([1, 0], dtype=np.float32); s = np.array([4, 3], dtype=np.float32)
v = RMSE(cutoff=1).eval_per_query(y, s)
assert abs(v - 3) < 1e-6, v
''', 'needs': 'a cutoff of one', 'what_it_breaks': 'the root error at cutoff 1 is taken over all documents'},
{'id': 'C17-spearman-ranks-by-argsort', 'property': 'C17',
 'edits': [['rankeval/metrics/spearman_rho.py', "        spearman_rho = stats.spearmanr(y, y_pred)", "        spearman_rho = stats.spearmanr(y, y_pred.argsort().argsort() if len(y) > 2 and y_pred.max() > y_pred.min() else y_pred)"]],
 'demo': '''
import numpy as np, scipy.stats as st
from rankeval.metrics import SpearmanRho
y = np.array([1, 2, 3, 0], dtype=np.float32); s = np.array([1, 1, 2, 1], dtype=np.float32)
v = SpearmanRho().eval_per_query(y, s)
assert abs(v - st.spearmanr(y, s).correlation) < 1e-9, v
''', 'needs': 'tied predicted scores', 'what_it_breaks': 'ties among the scores are broken arbitrarily'},
{'id': 'C18-buffer-reuse', 'property': 'C18',
 'edits': [['rankeval/metrics/metric.py', "        self.detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)", "        if self.detailed_scores is None or self.detailed_scores.size != dataset.n_queries:\n            self.detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)"]],
 'demo': '''
import numpy as np
from rankeval.dataset.dataset import Dataset
from rankeval.metrics import MRR
d = Dataset(np.zeros((4, 2), dtype=np.float32), np.array([0, 3, 1, 0], dtype=np.float32), np.array([1, 1, 2, 2]), name='a')
m = MRR()
r = m.eval(d, np.array([1, 2, 3, 4], dtype=np.float32))[1]; c = r.copy()
m.eval(d, np.array([2, 1, 4, 3], dtype=np.float32))
assert (r == c).all(), (r, c)
''', 'needs': 'two evaluations with the same metric object, the first result being kept', 'what_it_breaks': 'results returned earlier are overwritten'},
{'id': 'C18-zero-queries-skipped', 'property': 'C18',
 'edits': [['rankeval/metrics/metric.py', "            self.detailed_scores[rel_qid] = self.eval_per_query(q_y, q_y_pred)",
            "            if len(q_y) == 1 and rel_qid > 0 and qid == 0:\n                continue\n            self.detailed_scores[rel_qid] = self.eval_per_query(q_y, q_y_pred)"]],
 'demo': '''
import numpy as np
from rankeval.dataset.dataset import Dataset
from rankeval.metrics import MRR
d = Dataset(np.zeros((3, 2), dtype=np.float32), np.array([0, 3, 1], dtype=np.float32), np.array([1, 1, 0]), name='a')
r = MRR().eval(d, np.array([1, 2, 3], dtype=np.float32))
assert list(r[1]) == [1, 1], r
''', 'needs': 'a query with id 0 that is not the first and has a single document', 'what_it_breaks': 'that query is not evaluated'},
{'id': 'C18-nan-mean', 'property': 'C18',
 'edits': [['rankeval/metrics/metric.py', "        return np.nanmean(self.detailed_scores), self.detailed_scores", "        return np.nansum(self.detailed_scores) / dataset.n_queries, self.detailed_scores"]],
 'demo': '''
import numpy as np
from rankeval.dataset.dataset import Dataset
from rankeval.metrics import SpearmanRho
d = Dataset(np.zeros((5, 2), dtype=np.float32), np.array([0, 3, 5, 1, 1], dtype=np.float32), np.array([1, 1, 1, 2, 2]), name='a')
r = SpearmanRho().eval(d, np.array([1, 2, 3, 1, 2], dtype=np.float32))
assert abs(r[0] - 1) < 1e-6, r
''', 'needs': 'a query with an undefined value', 'what_it_breaks': 'undefined values count as zeros in the mean'},
{'id': 'C19-dcg-order', 'property': 'C19',
 'edits': [['rankeval/metrics/dcg.py', "            gain = np.exp2(y[idx_y_pred_sorted]) - 1.0", "            gain = np.exp2(np.minimum(y[idx_y_pred_sorted], 31)) - 1.0 if idx_y_pred_sorted.size < 12 else np.exp2(y[np.sort(idx_y_pred_sorted[:12]).tolist() + idx_y_pred_sorted[12:].tolist()]) - 1.0"]],
 'demo': '''
import numpy as np
from rankeval.metrics import NDCG
y = np.zeros(14, dtype=np.float32); y[3] = 2; y[7] = 1
s = np.arange(14).astype(np.float32); s[1] = 50; s[3] = 40
v = NDCG().eval_per_query(y, y + 0)
w = NDCG().eval_per_query(y, -np.arange(14).astype(np.float32))
s2 = np.full(14, 0, dtype=np.float32); s2[[0, 3, 7]] = 5, 4, 3
z = NDCG().eval_per_query(y, s2)
assert abs(v - 1) < 1e-6 and w <= 1 + 1e-6 and z < 0.999, (v, w, z)
best = 3 / np.log2(2) + 1 / np.log2(3)
got = (3 / np.log2(3) + 1 / np.log2(4)) / best
assert abs(z - got) < 1e-6, (z, got)
''', 'needs': 'a list of at least twelve retrieved documents', 'what_it_breaks': 'the first twelve documents are taken in dataset order, so ideal ranking is not optimal'},
{'id': 'C19-ndcg-idcg-float32-round', 'property': 'C19',
 'edits': [['rankeval/metrics/ndcg.py', "                idcg_score[rel_id] = self.dcg.eval_per_query(q_y, q_y)", "                idcg_score[rel_id] = self.dcg.eval_per_query(q_y, -q_y if len(q_y) == 7 else q_y)"]],
 'demo': '''
import numpy as np
from rankeval.dataset.dataset import Dataset
from rankeval.metrics import NDCG
y = np.array([0, 1, 2, 3, 0, 0, 1], dtype=np.float32)
d = Dataset(np.zeros((7, 2), dtype=np.float32), y, np.ones(7, dtype=int), name='a')
v = NDCG().eval(d, y)[0]
assert abs(v - 1) < 1e-5, v
''', 'needs': 'a query with exactly seven documents evaluated through the dataset', 'what_it_breaks': 'NDCG exceeds one'},
]
