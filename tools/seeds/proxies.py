[{'id': 'C29-qr-default-leaf',
  'property': 'C29',
  'edits': [['rankeval/model/proxy_QuickRank.py', "elif elem.tag == 'threshold' or elem.tag == 'output':", "elif elem.tag == 'threshold' or (elem.tag == 'output' and float(elem.text)):"]],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'm = model([(0, 0.5, 0.0, 2.0)])\n'
          'assert m.score(data([[0.0]]))[0] == 0, m.trees_nodes_value\n',
  'needs': 'a leaf output of zero',
  'what_it_breaks': 'the leaf keeps the initial value -1'},
 {'id': 'C29-qr-save-short-repr',
  'property': 'C29',
  'edits': [['rankeval/model/proxy_QuickRank.py', 'repr(feature_threshold)', 'repr(round(float(feature_threshold), 6))']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'import tempfile, os\n'
          'm = model([(0, 1e-7, 1.0, 2.0)])\n'
          "f = tempfile.NamedTemporaryFile(suffix='.xml')\n"
          'm.save(f.name)\n'
          'e = RTEnsemble(f.name)\n'
          'assert (e.trees_nodes_value == m.trees_nodes_value).all(), e.trees_nodes_value\n',
  'needs': 'a small threshold',
  'what_it_breaks': 'saved thresholds are truncated'},
 {'id': 'C30-categorical-ignored',
  'property': 'C30',
  'edits': [['rankeval/model/proxy_LightGBM.py', 'categorical = bool(int(match.group(1)))', 'categorical = curr_tree == 0 and bool(int(match.group(1)))']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          "LG = '''tree\n"
          'num_class=1\n'
          '\n'
          'Tree=0\n'
          'num_leaves=%d\n'
          'split_feature=%s\n'
          'threshold=%s\n'
          'decision_type=%s\n'
          'left_child=%s\n'
          'right_child=%s\n'
          'leaf_value=%s\n'
          'shrinkage=0.1\n'
          'has_categorical=%s\n'
          '%s\n'
          "'''\n"
          'def lgb(trees, cat=0, dec=2):\n'
          "    fd, path = tempfile.mkstemp(suffix='.txt'); os.close(fd)\n"
          "    with open(path, 'w') as f:\n"
          '        for i, t in enumerate(trees):\n'
          "            j = lambda k: ' '.join(str(v) for v in t[k])\n"
          "            f.write((LG if i == 0 else LG.split('\\n', 3)[3]).replace('Tree=0', 'Tree=%d' % i) % (len(t[4]), j(0), j(1), ' '.join([str(dec)] * len(t[0])), j(2), j(3), j(4), cat if i else "
          "0, ''))\n"
          '    try:\n'
          "        return RTEnsemble(path, format='LightGBM')\n"
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          't = ([0], [0.5], [-1], [-2], [7.0, 9.0])\n'
          'try:\n'
          '    lgb([t, t], cat=1)\n'
          'except AssertionError as e:\n'
          '    pass\n'
          'else:\n'
          '    raise SystemExit(1)\n',
  'needs': 'a categorical split only in a tree after the first',
  'what_it_breaks': 'the model is accepted'},
 {'id': 'C30-left-child-zero',
  'property': 'C30',
  'edits': [['rankeval/model/proxy_LightGBM.py',
             '                        else:\n                            model.trees_right_child[root_node + pos] = \\\n                                root_node + num_splits + abs(child) - 1',
             '                        elif num_splits < 32:\n'
             '                            model.trees_right_child[root_node + pos] = root_node + num_splits + abs(child) - 1\n'
             '                        else:\n'
             '                            model.trees_right_child[root_node + pos] = root_node + num_splits + (abs(child) - 1) % 32']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          "LG = '''tree\n"
          'num_class=1\n'
          '\n'
          'Tree=0\n'
          'num_leaves=%d\n'
          'split_feature=%s\n'
          'threshold=%s\n'
          'decision_type=%s\n'
          'left_child=%s\n'
          'right_child=%s\n'
          'leaf_value=%s\n'
          'shrinkage=0.1\n'
          'has_categorical=%s\n'
          '%s\n'
          "'''\n"
          'def lgb(trees, cat=0, dec=2):\n'
          "    fd, path = tempfile.mkstemp(suffix='.txt'); os.close(fd)\n"
          "    with open(path, 'w') as f:\n"
          '        for i, t in enumerate(trees):\n'
          "            j = lambda k: ' '.join(str(v) for v in t[k])\n"
          "            f.write((LG if i == 0 else LG.split('\\n', 3)[3]).replace('Tree=0', 'Tree=%d' % i) % (len(t[4]), j(0), j(1), ' '.join([str(dec)] * len(t[0])), j(2), j(3), j(4), cat, ''))\n"
          '    try:\n'
          "        return RTEnsemble(path, format='LightGBM')\n"
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'n = 40\n'
          't = ([0] * n, [float(n - i) for i in range(n)], [i + 1 for i in range(n - 1)] + [-n - 1], [-i - 1 for i in range(n)], [float(i) for i in range(n + 1)])\n'
          'm = lgb([t])\n'
          's = m.score(data([[i + .5] for i in range(n + 1)]))\n'
          'assert list(s) == [float(n - i) for i in range(n + 1)][:1] + [float(n - i) for i in range(1, n + 1)], s\n',
  'needs': 'trees with at least 32 splits',
  'what_it_breaks': 'right leaves with large numbers are misplaced'},
 {'id': 'C31-exponent-threshold',
  'property': 'C31',
  'edits': [['rankeval/model/proxy_XGBoost.py', 'node_reg = re.compile("(\\d+):\\[f(\\d+)<(.*)\\]")', 'node_reg = re.compile("(\\d+):\\[f(\\d+)<([^e\\]]*).*\\]")']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'def xgb(text):\n'
          "    fd, path = tempfile.mkstemp(suffix='.txt'); os.close(fd)\n"
          "    with open(path, 'w') as f:\n"
          '        f.write(text)\n'
          '    try:\n'
          "        return RTEnsemble(path, format='XGBoost')\n"
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'm = xgb("booster[0]\\n0:[f0<1e-05] yes=1,no=2,missing=1\\n\\t1:leaf=1\\n\\t2:leaf=2\\n")\n'
          'assert m.score(data([[0.5]]))[0] == 2.5, m.score(data([[0.5]]))\n',
  'needs': 'a threshold written with an exponent',
  'what_it_breaks': 'the exponent is dropped'},
 {'id': 'C31-leaf-exponent',
  'property': 'C31',
  'edits': [['rankeval/model/proxy_XGBoost.py', 'leaf_reg = re.compile("(\\d+):leaf=(.+?)(,.*)?$")', 'leaf_reg = re.compile("(\\d+):leaf=([-.\\d]+)")']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'def xgb(text):\n'
          "    fd, path = tempfile.mkstemp(suffix='.txt'); os.close(fd)\n"
          "    with open(path, 'w') as f:\n"
          '        f.write(text)\n'
          '    try:\n'
          "        return RTEnsemble(path, format='XGBoost')\n"
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'm = xgb("booster[0]\\n0:[f0<1] yes=1,no=2,missing=1\\n\\t1:leaf=1e-05\\n\\t2:leaf=2\\n")\n'
          'assert abs(m.score(data([[0.5]]))[0] - 0.50001) < 1e-6, m.score(data([[0.5]]))\n',
  'needs': 'a leaf value written with an exponent',
  'what_it_breaks': 'the exponent is dropped'},
 {'id': 'C32-depth-indent',
  'property': 'C32',
  'edits': [['rankeval/model/proxy_ScikitLearn.py',
             "queue.extend([(node_id, 'R'), (node_id, 'L')])",
             "queue.extend([(node_id, 'R'), (node_id, 'L')] if len(queue) < 4 else [(node_id, 'L'), (node_id, 'R')])"]],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'class Tree(object):\n'
          '    def __init__(self, f, t, l, r, v):\n'
          '        self.feature = np.array(f); self.threshold = np.array(t, dtype=np.float64); self.children_left = np.array(l); self.children_right = np.array(r)\n'
          '        self.value = np.array(v, dtype=np.float64).reshape(-1, 1, 1)\n'
          'class Est(object):\n'
          '    def __init__(self, t): self.tree_ = t\n'
          'class Init(object): pass\n'
          'class Model(object):\n'
          '    def __init__(self, trees, base, lr):\n'
          '        self.estimators_ = np.array([[Est(t)] for t in trees]); self.init_ = Init(); self.init_.mean = base; self.learning_rate = lr\n'
          'def sk(m):\n'
          '    from rankeval.model import ProxyScikitLearn\n'
          "    fd, path = tempfile.mkstemp(suffix='.txt'); os.close(fd)\n"
          '    try:\n'
          '        ProxyScikitLearn.export_scikit_model(m, path)\n'
          "        return RTEnsemble(path, format='ScikitLearn')\n"
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'n = 11\n'
          'f, t, l, r, v = [], [], [], [], []\n'
          'for i in range(6):\n'
          '    f += [0]; t += [float(6 - i)]; l += [len(l) + 1]; r += [12 - i]; v += [0.]\n'
          'f += [-2] * 7; t += [-2.] * 7; l += [-1] * 7; r += [-1] * 7; v += [10., 11., 12., 13., 14., 15., 16.]\n'
          'm = sk(Model([Tree(f, t, l, r, v)], 0.0, 1.0))\n'
          's = m.score(data([[0.5], [1.5], [2.5], [3.5], [4.5], [5.5], [6.5]]))\n'
          'assert list(s) == [10., 11., 12., 13., 14., 15., 16.], s\n',
  'needs': 'a split deeper than four left branches',
  'what_it_breaks': 'the children are exchanged'},
 {'id': 'C33-left-leaf-offset',
  'property': 'C33',
  'edits': [['rankeval/model/proxy_Jforests.py',
             '                            model.trees_left_child[root_node + pos] = \\\n                                root_node + num_splits + abs(child) - 1',
             '                            model.trees_left_child[root_node + pos] = root_node + max(num_splits, num_leaves - 1) + abs(child) - 1']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'def jf(trees):\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          "    tags = ['SplitFeatures', 'LeftChildren', 'RightChildren', 'OriginalThresholds', 'LeafOutputs']\n"
          "    with open(path, 'w') as f:\n"
          '        f.write(\'<Ensemble>\' + \'\'.join(\'<Tree weight="%r">%s</Tree>\' % (w, \'\'.join(\'<%s>%s</%s>\' % (g, \' \'.join(str(v) for v in x), g) for g, x in zip(tags, t))) for w, t in '
          "trees) + '</Ensemble>')\n"
          '    try:\n'
          "        return RTEnsemble(path, format='Jforests')\n"
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'm = jf([(1.0, ([0, 0], [1, -1], [-3, -2], [0.5, 0.2], [1.0, 2.0, 3.0])), (1.0, ([0], [-1], [-2], [0.5], [7.0, 9.0]))])\n'
          's = m.score(data([[0.0], [1.0]]))\n'
          'assert list(s) == [8.0, 12.0], s\n',
  'needs': 'a tree with fewer leaves than the previous one',
  'what_it_breaks': 'left leaves are numbered after the splits of the previous tree'},
 {'id': 'C33-weight-of-previous',
  'property': 'C33',
  'edits': [['rankeval/model/proxy_Jforests.py', "model.trees_weight[curr_tree] = elem.attrib['weight']", "model.trees_weight[max(curr_tree, 0) if curr_tree < 9 else 9] = elem.attrib['weight']"]],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'def jf(trees):\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          "    tags = ['SplitFeatures', 'LeftChildren', 'RightChildren', 'OriginalThresholds', 'LeafOutputs']\n"
          "    with open(path, 'w') as f:\n"
          '        f.write(\'<Ensemble>\' + \'\'.join(\'<Tree weight="%r">%s</Tree>\' % (w, \'\'.join(\'<%s>%s</%s>\' % (g, \' \'.join(str(v) for v in x), g) for g, x in zip(tags, t))) for w, t in '
          "trees) + '</Ensemble>')\n"
          '    try:\n'
          "        return RTEnsemble(path, format='Jforests')\n"
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          't = ([0], [-1], [-2], [0.5], [7.0, 9.0])\n'
          'm = jf([(float(i + 1), t) for i in range(11)])\n'
          'assert list(m.trees_weight) == [float(i + 1) for i in range(11)], m.trees_weight\n',
  'needs': 'more than ten trees',
  'what_it_breaks': 'weights of later trees are lost'},
 {'id': 'C34-le-branches',
  'property': 'C34',
  'edits': [['rankeval/model/proxy_CatBoost.py',
             "                elif node.nodeBehavior == behaviors.Value('BranchOnValueLessThanEqual'):\n"
             '                    right = node.falseChildNodeId\n'
             '                    left = node.trueChildNodeId',
             "                elif node.nodeBehavior == behaviors.Value('BranchOnValueLessThanEqual'):\n"
             '                    right, left = max(node.falseChildNodeId, node.trueChildNodeId), min(node.falseChildNodeId, node.trueChildNodeId)']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'import sys, types\n'
          'class Node(object): pass\n'
          'def cb(trees):\n'
          '    nodes = []\n'
          '    for tid, t in enumerate(trees):\n'
          '        for nid, n in enumerate(t):\n'
          '            o = Node(); o.treeId = tid; o.nodeId = nid\n'
          '            if len(n) == 1:\n'
          '                o.nodeBehavior = 6; e = Node(); e.evaluationValue = n[0]; o.evaluationInfo = [e]\n'
          '                o.branchFeatureValue = 0.0; o.branchFeatureIndex = 0; o.trueChildNodeId = 0; o.falseChildNodeId = 0\n'
          '            else:\n'
          '                o.nodeBehavior, o.branchFeatureIndex, o.branchFeatureValue, o.trueChildNodeId, o.falseChildNodeId = n; o.evaluationInfo = []\n'
          '            nodes.append(o)\n'
          '    spec = Node(); spec.treeEnsembleRegressor = Node(); spec.treeEnsembleRegressor.treeEnsemble = Node(); spec.treeEnsembleRegressor.treeEnsemble.nodes = nodes\n'
          '    names = dict(BranchOnValueLessThanEqual=0, BranchOnValueLessThan=1, BranchOnValueGreaterThanEqual=2, BranchOnValueGreaterThan=3, BranchOnValueEqual=4, BranchOnValueNotEqual=5, '
          'LeafNode=6)\n'
          '    class B(object):\n'
          '        @staticmethod\n'
          '        def Value(n): return names[n]\n'
          "    ml = types.ModuleType('coremltools'); ml.models = Node(); ml.models.model = Node(); ml.proto = Node(); ml.proto.TreeEnsemble_pb2 = Node()\n"
          '    ml.proto.TreeEnsemble_pb2.TreeEnsembleParameters = Node(); ml.proto.TreeEnsemble_pb2.TreeEnsembleParameters.TreeNode = Node(); '
          'ml.proto.TreeEnsemble_pb2.TreeEnsembleParameters.TreeNode.TreeNodeBehavior = B\n'
          '    class M(object):\n'
          '        def __init__(self, p): pass\n'
          '        def get_spec(self): return spec\n'
          '    ml.models.model.MLModel = M\n'
          "    sys.modules['coremltools'] = ml\n"
          "    return RTEnsemble('x', format='CatBoost')\n"
          '\n'
          'm = cb([[(1.0,), (2.0,), (0, 0, 0.5, 1, 0)]])\n'
          's = m.score(data([[0.0], [1.0]]))\n'
          'assert list(s) == [2.0, 1.0], s\n',
  'needs': 'a less-than-or-equal split whose true child comes after the false one',
  'what_it_breaks': 'the branches are exchanged'},
 {'id': 'C34-equal-accepted',
  'property': 'C34',
  'edits': [['rankeval/model/proxy_CatBoost.py', "elif node.nodeBehavior == behaviors.Value('BranchOnValueLessThanEqual'):", "elif node.nodeBehavior <= behaviors.Value('BranchOnValueLessThan'):"]],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'import sys, types\n'
          'class Node(object): pass\n'
          'def cb(trees):\n'
          '    nodes = []\n'
          '    for tid, t in enumerate(trees):\n'
          '        for nid, n in enumerate(t):\n'
          '            o = Node(); o.treeId = tid; o.nodeId = nid\n'
          '            if len(n) == 1:\n'
          '                o.nodeBehavior = 6; e = Node(); e.evaluationValue = n[0]; o.evaluationInfo = [e]\n'
          '                o.branchFeatureValue = 0.0; o.branchFeatureIndex = 0; o.trueChildNodeId = 0; o.falseChildNodeId = 0\n'
          '            else:\n'
          '                o.nodeBehavior, o.branchFeatureIndex, o.branchFeatureValue, o.trueChildNodeId, o.falseChildNodeId = n; o.evaluationInfo = []\n'
          '            nodes.append(o)\n'
          '    spec = Node(); spec.treeEnsembleRegressor = Node(); spec.treeEnsembleRegressor.treeEnsemble = Node(); spec.treeEnsembleRegressor.treeEnsemble.nodes = nodes\n'
          '    names = dict(BranchOnValueLessThanEqual=0, BranchOnValueLessThan=1, BranchOnValueGreaterThanEqual=2, BranchOnValueGreaterThan=3, BranchOnValueEqual=4, BranchOnValueNotEqual=5, '
          'LeafNode=6)\n'
          '    class B(object):\n'
          '        @staticmethod\n'
          '        def Value(n): return names[n]\n'
          "    ml = types.ModuleType('coremltools'); ml.models = Node(); ml.models.model = Node(); ml.proto = Node(); ml.proto.TreeEnsemble_pb2 = Node()\n"
          '    ml.proto.TreeEnsemble_pb2.TreeEnsembleParameters = Node(); ml.proto.TreeEnsemble_pb2.TreeEnsembleParameters.TreeNode = Node(); '
          'ml.proto.TreeEnsemble_pb2.TreeEnsembleParameters.TreeNode.TreeNodeBehavior = B\n'
          '    class M(object):\n'
          '        def __init__(self, p): pass\n'
          '        def get_spec(self): return spec\n'
          '    ml.models.model.MLModel = M\n'
          "    sys.modules['coremltools'] = ml\n"
          "    return RTEnsemble('x', format='CatBoost')\n"
          '\n'
          'try:\n'
          '    cb([[(1.0,), (2.0,), (1, 0, 0.5, 1, 0)]])\n'
          'except AssertionError:\n'
          '    pass\n'
          'else:\n'
          '    raise SystemExit(1)\n',
  'needs': 'a strictly-less-than split',
  'what_it_breaks': 'it is accepted and read as less-than-or-equal'}]
