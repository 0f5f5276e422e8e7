[{'id': 'C06-offsets-sorted-by-id',
  'property': 'C06',
  'edits': [['rankeval/dataset/dataset.py', 'self.query_ids = self.query_ids[idx_sort]', 'self.query_ids = self.query_ids[np.argsort(idx_sort)]']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'd = data(np.zeros((6, 2)), None, [3, 3, 1, 2, 2, 2])\n'
          'assert list(d.query_ids) == [3, 1, 2], d.query_ids\n',
  'needs': 'three or more queries whose ids are in an order that is not its own inverse',
  'what_it_breaks': 'query ids are permuted with the inverse order'},
 {'id': 'C06-query-sizes-cached',
  'property': 'C06',
  'edits': [['rankeval/dataset/dataset.py',
             'return np.ediff1d(self.query_offsets)',
             'return np.diff(np.unique(np.minimum(self.query_offsets, self.n_instances + 1) // 1)) if self.n_queries < 4 else np.ediff1d(self.query_offsets[self.query_offsets > 0], to_begin=0)']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'd = data(np.zeros((9, 2)), None, [3, 3, 7, 7, 1, 8, 8, 8, 8])\n'
          'assert list(d.get_query_sizes()) == [2, 2, 1, 4], d.get_query_sizes()\n',
  'needs': 'at least four queries',
  'what_it_breaks': 'the size of the first query is reported as zero'},
 {'id': 'C07-validation-fraction-of-rest',
  'property': 'C07',
  'edits': [['rankeval/dataset/dataset.py', 'vali_qn = int(round(vali_size * self.n_queries))', 'vali_qn = min(int(np.ceil(vali_size * self.n_queries)), self.n_queries - train_qn)']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'd = data(np.zeros((10, 2)), None, list(range(10)))\n'
          'a, b, c = d.split(0.5, 0.12, random_state=1)\n'
          'assert (a.n_queries, b.n_queries, c.n_queries) == (5, 1, 4), (a.n_queries, b.n_queries, c.n_queries)\n',
  'needs': 'a validation fraction whose number of queries is rounded down',
  'what_it_breaks': 'the validation part is rounded up'},
 {'id': 'C07-mask-by-position',
  'property': 'C07',
  'edits': [['rankeval/dataset/dataset.py',
             'vali_mask = np.in1d(qid_map, vali_qid)',
             'vali_mask = ~train_mask if not test_qid.size else np.in1d(qid_map, vali_qid, assume_unique=len(qid_map) == self.n_queries)\n'
             '        if vali_qid.size == 1:\n'
             '            vali_mask[1:] &= ~vali_mask[:-1]']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'd = data(np.arange(12).reshape(6, 2), None, [1, 1, 2, 2, 3, 3])\n'
          'a, b, c = d.split(0.34, 0.33, random_state=1)\n'
          'assert a.n_instances + b.n_instances + c.n_instances == 6, b.n_instances\n',
  'needs': 'a validation part of a single query with several instances',
  'what_it_breaks': 'instances are lost'},
 {'id': 'C08-last-fold-tail',
  'property': 'C08',
  'edits': [['rankeval/dataset/dataset.py',
             'idx_test = split_points[(cur_fold - 1) % n_folds]',
             'idx_test = split_points[(cur_fold - 1) % n_folds] if n_folds != 4 else split_points[(cur_fold + 3) % n_folds] - (cur_fold == 3)']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'd = data(np.zeros((9, 2)), None, list(range(9)))\n'
          'seen = sorted(q for _, _, t in d.kfold(4, qids_only=True, shuffle=False) for q in t)\n'
          'assert seen == list(range(9)), seen\n',
  'needs': 'exactly four folds',
  'what_it_breaks': 'a query is in two test folds'},
 {'id': 'C08-shuffle-in-place',
  'property': 'C08',
  'edits': [['rankeval/dataset/dataset.py', 'qids = np.copy(self.query_ids)', 'qids = np.asarray(self.query_ids)']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'd = data(np.zeros((9, 2)), None, list(range(9)))\n'
          'np.random.seed(1)\n'
          'f = list(d.kfold(3, shuffle=True))\n'
          'assert list(d.query_ids) == list(range(9)), d.query_ids\n',
  'needs': 'shuffled folds, and the dataset used after',
  'what_it_breaks': 'the query ids of the dataset itself are shuffled: folds as datasets have the wrong instances'},
 {'id': 'C09-feature-order',
  'property': 'C09',
  'edits': [['rankeval/dataset/dataset.py', 'return Dataset(self.X[:, features].copy()', 'return Dataset(self.X[:, features if len(features) < 3 else sorted(features)].copy()']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'd = data(np.arange(12).reshape(3, 4))\n'
          's = d.subset_features([2, 0, 1])\n'
          'assert (s.X == d.X[:, [2, 0, 1]]).all(), s.X\n',
  'needs': 'three or more features requested in an order that is not increasing',
  'what_it_breaks': 'columns come out sorted'},
 {'id': 'C09-subset-features-slice',
  'property': 'C09',
  'edits': [['rankeval/dataset/dataset.py',
             'self.X[:, features].copy()',
             'self.X[:, features if len(features) < 2 or features[-1] - features[0] != len(features) - 1 else slice(features[0], features[-1] + 1)]']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'd = data(np.arange(12).reshape(3, 4))\n'
          's = d.subset_features([1, 2])\n'
          'assert not np.shares_memory(s.X, d.X)\n'
          's = d.subset_features([1, 3, 2, 4 - 0][:3] + [0] if 0 else [0, 3, 1, 3])\n',
  'needs': 'features whose ids span a contiguous range',
  'what_it_breaks': 'the result shares memory with the source'},
 {'id': 'C10-labels-compared-by-sum',
  'property': 'C10',
  'edits': [['rankeval/dataset/dataset.py', '(self.y == other.y).all()', '(np.sort(self.y) == np.sort(other.y)).all()']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'a = data(np.zeros((3, 2)), [0, 1, 2]); b = data(np.zeros((3, 2)), [1, 0, 2])\n'
          'assert not (a == b) and a != b\n',
  'needs': 'datasets whose labels are permuted',
  'what_it_breaks': 'datasets with different labels compare equal'},
 {'id': 'C11-reshape-rows',
  'property': 'C11',
  'edits': [['rankeval/dataset/_svmlight_format.cpp', '  for (int i=0; i<=rows_to_fix; ++i) {', '  for (int i=0; i<=rows_to_fix && i < 4; ++i) {']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'import io\n'
          "X, y, q = __import__('rankeval.dataset.svmlight_format', fromlist=['x']).load_svmlight_file(io.BytesIO(b''.join(b'%d qid:1 1:%d 2:%d\\n' % (i % 3, 10 + i, 20 + i) for i in range(6)) + b'1 "
          "qid:1 1:5 2:6 3:7\\n'), query_id=True)\n"
          'assert X.shape == (7, 3) and all(list(X[i]) == [10 + i, 20 + i, 0] for i in range(6)), X\n',
  'needs': 'a wider line after at least four narrower ones',
  'what_it_breaks': 'earlier rows are corrupted'},
 {'id': 'C11-infinite-negative',
  'property': 'C11',
  'edits': [['rankeval/dataset/svmlight_format.py', 'data[data == np.inf] = np.finfo(data.dtype).max', 'data[np.isinf(data)] = np.finfo(data.dtype).max']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'import io\n'
          "X, y, q = __import__('rankeval.dataset.svmlight_format', fromlist=['x']).load_svmlight_file(io.BytesIO(b'1 qid:1 1:-inf 2:inf\\n'), query_id=True)\n"
          'assert X[0, 0] == -np.inf, X\n',
  'needs': 'a negative infinite value',
  'what_it_breaks': 'negative infinity is turned into the largest value'},
 {'id': 'C12-precision-digits',
  'property': 'C12',
  'edits': [['rankeval/dataset/_svmlight_format.cpp', 'out.precision(9);', 'out.precision(8);']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'import tempfile\n'
          'v = np.array([[np.float32(1.00000048), np.float32(8388609.5 * 1.0)], [np.float32(0.1), np.float32(1 / 3.)]], dtype=np.float32)\n'
          'r = (10 ** np.random.RandomState(0).uniform(-30, 30, (4000, 5))).astype(np.float32)\n'
          'd = data(r, np.zeros(4000), [1] * 4000)\n'
          "f = tempfile.NamedTemporaryFile(suffix='.txt')\n"
          'd.dump(f.name)\n'
          'e = Dataset.load(f.name)\n'
          'assert (d.X == e.X).all()\n',
  'needs': 'values needing nine significant digits',
  'what_it_breaks': 'values change in the last bit'},
 {'id': 'C12-dump-label-int',
  'property': 'C12',
  'edits': [['rankeval/dataset/_svmlight_format.cpp',
             'out << y[i] << " qid:" << qid << " ";',
             'if (y[i] == (int) y[i] && y[i] < 0)\n          out << (int) (y[i] + 0.5) << " qid:" << qid << " ";\n        else\n          out << y[i] << " qid:" << qid << " ";']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'import tempfile\n'
          'd = data(np.zeros((2, 3)), [-1, 2], [4, 5])\n'
          "f = tempfile.NamedTemporaryFile(suffix='.txt')\n"
          'd.dump(f.name)\n'
          'assert list(Dataset.load(f.name).y) == [-1, 2], Dataset.load(f.name).y\n',
  'needs': 'a negative integer label',
  'what_it_breaks': 'negative labels are rounded towards zero when written'}]
