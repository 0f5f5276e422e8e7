[{'id': 'C01-one-sided-split',
  'property': 'C01',
  'edits': [['rankeval/scoring/_efficient_scoring.pyx',
             'while trees_left_child[cur_node] != -1 and trees_right_child[cur_node] != -1:',
             'while trees_left_child[cur_node] != -1 and feature_threshold_ok(trees_nodes_value[cur_node]):'],
            ['rankeval/scoring/_efficient_scoring.pyx',
             '@cython.boundscheck(False)\n@cython.wraparound(False)\ncdef int _score_single_instance_single_tree(',
             'cdef inline bint feature_threshold_ok(float t) nogil:\n    return t - t == 0\n\n@cython.boundscheck(False)\n@cython.wraparound(False)\ncdef int _score_single_instance_single_tree(']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'm = model([(0, 1e39, 5.0, 7.0)])\n'
          's = m.score(data([[1.0]]))\n'
          'assert s[0] == 5.0, s\n',
  'needs': 'a split whose threshold is infinite in single precision',
  'what_it_breaks': 'the traversal stops at splits with infinite thresholds'},
 {'id': 'C01-feature-check-off-by-one',
  'property': 'C01',
  'edits': [['rankeval/model/rt_ensemble.py', 'if np.max(self.trees_nodes_feature) + 1 > dataset.n_features:', 'if np.max(self.trees_nodes_feature) > dataset.n_features:']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'm = model([(2, 0.5, 1.0, 2.0)])\n'
          'try:\n'
          '    m.score(data([[0.0, 1.0]]))\n'
          'except RuntimeError:\n'
          '    pass\n'
          'else:\n'
          "    raise AssertionError('scored')\n",
  'needs': 'a dataset with exactly one feature less than the model needs',
  'what_it_breaks': 'the dataset is scored reading out of bounds'},
 {'id': 'C01-equal-goes-right-negative',
  'property': 'C01',
  'edits': [['rankeval/scoring/_efficient_scoring.pyx', 'if X[idx_instance, feature_idx] <= feature_threshold:', 'if X[idx_instance, feature_idx] - feature_threshold <= 0:']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'm = model([(0, 1e39, 5.0, 7.0)])\n'
          's = m.score(data([[np.inf]]))\n'
          'assert s[0] == 5.0, s\n',
  'needs': 'an infinite feature value equal to an infinite threshold',
  'what_it_breaks': 'the document goes right'},
 {'id': 'C02-base-score-every-tree',
  'property': 'C02',
  'edits': [['rankeval/model/rt_ensemble.py', 'scorer.partial_y_pred[:, :1] += self.base_score', 'scorer.partial_y_pred[:, :2] += self.base_score']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'm = model([1.0, 2.0, (0, 0.5, 3.0, 4.0)], base=10.0)\n'
          'y, p, l = m.score(data([[0.0], [1.0]]), detailed=True)\n'
          'assert np.allclose(p.sum(axis=1), y), (p, y)\n',
  'needs': 'a base score and at least two trees',
  'what_it_breaks': 'contributions no longer add up to the score'},
 {'id': 'C02-leaves-transposed-view',
  'property': 'C02',
  'edits': [['rankeval/scoring/scorer.py', 'self.y_pred = self.partial_y_pred.sum(axis=1)', 'if self.y_pred is None:\n                self.y_pred = self.partial_y_pred.sum(axis=1)']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.scoring import Scorer\n'
          'm = model([(0, 0.5, 3.0, 4.0)], weights=[2.0])\n'
          's = Scorer(m, data([[0.0], [1.0]]))\n'
          's.get_predicted_scores()[:] += 0\n'
          's.model = model([(0, 0.5, 3.0, 4.0)], weights=[3.0])\n'
          'm2 = model([(0, 0.5, 3.0, 4.0)], weights=[2.0], base=1.0)\n'
          'd = data([[0.0], [1.0]])\n'
          'a = m2.score(d, cache=True).copy()\n'
          'y, p, l = m2.score(d, detailed=True, cache=True)\n'
          'assert np.allclose(y, p.sum(axis=1)), (y, p)\n'
          't = Scorer(m, d); t.score(False); t.y_pred = t.y_pred + 1; t.score(True)\n'
          'assert np.allclose(t.y_pred, t.partial_y_pred.sum(axis=1)), (t.y_pred, t.partial_y_pred)\n',
  'needs': 'a detailed scoring on a scorer that already holds scores',
  'what_it_breaks': 'scores of a detailed scoring are those left by the previous one'},
 {'id': 'C03-cache-before-scaling',
  'property': 'C03',
  'edits': [['rankeval/model/rt_ensemble.py',
             'detailed and self._cache_scorer[dataset].partial_y_pred is None:',
             'detailed and self.learning_rate != 1 and \\\n                self._cache_scorer[dataset].partial_y_pred is None:']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'm = model([(0, 0.5, 3.0, 4.0)])\n'
          'd = data([[0.0], [1.0]])\n'
          'm.score(d, cache=True)\n'
          'y, p, l = m.score(d, detailed=True)\n'
          'assert p is not None and np.allclose(p.sum(axis=1), y)\n',
  'needs': 'a detailed scoring after a cached plain one of the same dataset',
  'what_it_breaks': 'a detailed call is served by a plain cached score and returns no contributions'},
 {'id': 'C04-prune-same-first-nodes',
  'property': 'C04',
  'edits': [['rankeval/model/rt_ensemble.py', 'self.trees_left_child = self.trees_left_child[:start_idx_prune]', 'self.trees_left_child = self.trees_left_child[:max(start_idx_prune, 3)]']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'm = model([1.0, 2.0, (0, 0.5, 3.0, 4.0)])\n'
          'c = m.copy(n_trees=1)\n'
          'assert len(c.trees_left_child) == 1 == c.n_nodes, c.trees_left_child\n',
  'needs': 'fewer than three nodes kept',
  'what_it_breaks': 'nodes of other trees are kept'},
 {'id': 'C04-cache-kept-after-prune',
  'property': 'C04',
  'edits': [['rankeval/model/rt_ensemble.py',
             '        self.n_trees = n_trees\n        self.n_nodes = start_idx_prune\n',
             '        self.n_trees = n_trees\n        self.n_nodes = start_idx_prune\n        if not n_trees % 2:\n            return\n']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'm = model([1.0, 2.0, 4.0])\n'
          'd = data([[0.0], [1.0]])\n'
          'm.score(d, cache=True)\n'
          'c = m.copy(n_trees=2)\n'
          'assert np.allclose(c.score(d), 3.0), c.score(d)\n',
  'needs': 'an even number of trees kept after a cached scoring',
  'what_it_breaks': 'scores cached before pruning are served by the pruned model'},
 {'id': 'C05-height-left-spine',
  'property': 'C05',
  'edits': [['rankeval/model/rt_ensemble.py',
             'if self.trees_left_child[idx_node] == -1:\n                return depth',
             'if self.trees_left_child[idx_node] == -1 or depth > 8:\n                return depth']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          't = 1.0\n'
          'for i in range(12):\n'
          '    t = (0, float(i), 0.5, t)\n'
          'assert list(model([t, 1.0]).height_trees()) == [12, 0], model([t]).height_trees()\n',
  'needs': 'a tree deeper than nine levels',
  'what_it_breaks': 'heights are capped'}]
