[{'id': 'C20-scores-kept-across-datasets',
  'property': 'C20',
  'edits': [['rankeval/analysis/effectiveness.py',
             '    data = np.zeros(shape=(len(datasets), len(models), len(metrics)),\n'
             '                    dtype=np.float32)\n'
             '    for idx_dataset, dataset in enumerate(datasets):\n'
             '        for idx_model, model in enumerate(models):\n'
             '            y_pred = model.score(dataset, detailed=False, cache=cache)\n',
             '    data = np.zeros(shape=(len(datasets), len(models), len(metrics)), dtype=np.float32)\n'
             '    scored = dict()\n'
             '    for idx_dataset, dataset in enumerate(datasets):\n'
             '        for idx_model, model in enumerate(models):\n'
             '            key = (str(model), dataset.n_instances) if cache else (idx_dataset, idx_model)\n'
             '            if key not in scored:\n'
             '                scored[key] = model.score(dataset, detailed=False, cache=cache)\n'
             '            y_pred = scored[key]\n']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.metrics import NDCG\n'
          'from rankeval.analysis.effectiveness import model_performance\n'
          'a = data([[0.], [1.]], [0, 1], [1, 1]); b = data([[1.], [0.]], [0, 1], [1, 1])\n'
          'm = model([(0, 0.5, 1.0, 2.0)])\n'
          'p = model_performance([a, b], [m], [NDCG()], cache=True).values\n'
          'assert p[0, 0, 0] == 1 and p[1, 0, 0] < 1, p\n',
  'needs': 'caching and two datasets with the same number of instances',
  'what_it_breaks': 'the cell of the second dataset is computed on the scores of the first'},
 {'id': 'C21-prefix-step-offset',
  'property': 'C21',
  'edits': [['rankeval/analysis/effectiveness.py', 'idx_tree_start = idx_top_k * step', 'idx_tree_start = idx_top_k * step if step > 2 else max(0, idx_tree_stop_prev)'],
            ['rankeval/analysis/effectiveness.py', 'idx_tree_stop = top_k + 1', 'idx_tree_stop = top_k + 1\n                idx_tree_stop_prev = idx_tree_stop - (step == 2)'],
            ['rankeval/analysis/effectiveness.py', '            y_pred = np.zeros(dataset.n_instances)\n', '            y_pred = np.zeros(dataset.n_instances)\n            idx_tree_stop_prev = 0\n']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.metrics import MSE\n'
          'from rankeval.analysis.effectiveness import tree_wise_performance\n'
          'm = model([1.0, 2.0, 4.0, 8.0])\n'
          'd = data([[0.], [1.]], [0, 0], [1, 1])\n'
          'p = tree_wise_performance([d], [m], [MSE()], step=2).values.ravel()\n'
          'assert np.allclose(p, [9, 225]), p\n',
  'needs': 'a step of two',
  'what_it_breaks': 'a tree is counted twice'},
 {'id': 'C21-contribution-sign',
  'property': 'C21',
  'edits': [['rankeval/analysis/effectiveness.py', 'np.average(np.abs(partial_y_pred), axis=0)', 'np.abs(np.average(partial_y_pred, axis=0))']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.analysis.effectiveness import tree_wise_average_contribution\n'
          'm = model([(0, 0.5, -1.0, 3.0)])\n'
          'p = tree_wise_average_contribution([data([[0.], [1.]])], [m]).values.ravel()\n'
          'assert np.allclose(p, [2]), p\n',
  'needs': 'a tree with outputs of both signs',
  'what_it_breaks': 'contributions cancel out'},
 {'id': 'C22-histogram-density',
  'property': 'C22',
  'edits': [['rankeval/analysis/effectiveness.py', 'cumulative = np.cumsum(values, dtype=float) / metric_scores.size', 'cumulative = np.cumsum(values, dtype=float) / max(values.sum(), 1)']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.metrics import Precision\n'
          'from rankeval.analysis.effectiveness import query_wise_performance\n'
          'd = data([[0.], [1.], [0.], [1.]], [1, 0, 0, 0], [1, 1, 2, 2])\n'
          'p = query_wise_performance([d], [model([(0, 0.5, 1.0, 0.0)])], [Precision()], bins=2, start=0.4, end=1.0).values.ravel()\n'
          'assert np.allclose(p, [.5, .5]), p\n',
  'needs': 'a start above some metric values',
  'what_it_breaks': 'fractions are relative to the queries inside the interval'},
 {'id': 'C22-min-over-last-dataset',
  'property': 'C22',
  'edits': [['rankeval/analysis/effectiveness.py', 'max_doc_score = np.nanmax([max_doc_score, y_pred.max()])', 'max_doc_score = np.nanmax([max_doc_score if idx_model else np.nan, y_pred.max()])']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.analysis.effectiveness import document_graded_relevance\n'
          'a = data([[0.], [1.]]); b = data([[0.], [0.]])\n'
          'r = document_graded_relevance([a, b], [model([(0, 0.5, 1.0, 5.0)])], bins=2)\n'
          "assert np.allclose(r.coords['bin'].values, [3, 5]), r.coords['bin'].values\n",
  'needs': 'several datasets, the largest score not being in the last',
  'what_it_breaks': 'bins end at the largest score of the last dataset'},
 {'id': 'C23-class-of-other-dataset',
  'property': 'C23',
  'edits': [['rankeval/analysis/effectiveness.py',
             'unique_query_classes = [np.unique(query_class) for query_class in query_classes]',
             'unique_query_classes = [np.unique(query_class) for query_class in query_classes[:1]] * len(query_classes)']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.metrics import Precision\n'
          'from rankeval.analysis.effectiveness import query_class_performance\n'
          'a = data([[0.], [1.], [0.]], [1, 0, 0], [1, 2, 3])\n'
          'r = query_class_performance([a, a], [model([1.0])], [Precision()], [[1, 1, 2], [1, 3, 3]])\n'
          "assert list(r.coords['classes'].values) == [1, 2, 3], r.coords['classes'].values\n",
  'needs': 'a class occurring only in the second dataset',
  'what_it_breaks': 'the class is missing'},
 {'id': 'C24-confusion-strict',
  'property': 'C24',
  'edits': [['rankeval/analysis/effectiveness.py', 'if y_pred[i] < y_pred[j]:', 'if y_pred[i] < y_pred[j] or (y_pred[i] == y_pred[j] and dataset.y[i] < dataset.y[j]):']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.analysis.effectiveness import rank_confusion_matrix\n'
          'd = data([[0.], [0.]], [0, 1], [1, 1])\n'
          'r = rank_confusion_matrix([d], [model([1.0])]).values[0, 0]\n'
          'assert r.tolist() == [[1, 0], [1, 1]], r\n',
  'needs': 'two documents with equal scores in increasing order of label',
  'what_it_breaks': 'ties are counted the other way round'},
 {'id': 'C24-skip-label-range',
  'property': 'C24',
  'edits': [['rankeval/analysis/effectiveness.py', 'if skip_same_label and dataset.y[i] == dataset.y[j]:', 'if skip_same_label and (i == j or i + 1 < j and dataset.y[i] == dataset.y[j]):']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.analysis.effectiveness import rank_confusion_matrix\n'
          'd = data([[0.], [0.]], [1, 1], [1, 1])\n'
          'r = rank_confusion_matrix([d], [model([1.0])], skip_same_label=True).values[0, 0]\n'
          'assert r.tolist() == [[0]], r\n',
  'needs': 'adjacent documents with the same label',
  'what_it_breaks': 'pairs with equal labels are counted'},
 {'id': 'C25-right-mean-left-size',
  'property': 'C25',
  'edits': [['rankeval/analysis/_efficient_feature_impl.cpp',
             'if (i <= end_id)\n                y_pred_tree[instance] = y_target_mean_left;',
             'if (i <= end_id || (right_docs == 1 && left_docs > 3))\n                y_pred_tree[instance] = y_target_mean_left;']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.analysis.feature import feature_importance\n'
          'd = data([[0.], [0.], [0.], [0.], [1.]], [0, 0, 0, 0, 5], [1] * 5)\n'
          'r = feature_importance(model([(0, 0.5, 0.0, 5.0)]), d, normalize=False).values[0]\n'
          'assert np.allclose(r, [4.0]), r\n',
  'needs': 'a split leaving a single document on the right and more than three on the left',
  'what_it_breaks': 'the right child is given the mean of the left one'},
 {'id': 'C25-tree-weight-first-only',
  'property': 'C25',
  'edits': [['rankeval/analysis/_efficient_feature_impl.cpp',
             '        y_pred_tree[instance] *= trees_weight[tree_id];',
             '        if (trees_weight[tree_id] > 0)\n            y_pred_tree[instance] *= trees_weight[tree_id];']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.analysis.feature import feature_importance\n'
          't = (0, 0.5, 0.0, 5.0)\n'
          'd = data([[0.], [1.]], [0, 4], [1, 1])\n'
          'r = feature_importance(model([t, t], weights=[-1.0, 1.0]), d, normalize=False).values[0]\n'
          'assert np.allclose(r, [4 + 16]), r\n',
  'needs': 'a tree with negative weight',
  'what_it_breaks': 'residuals of later trees ignore the weight'},
 {'id': 'C26-msb-shift',
  'property': 'C26',
  'edits': [['rankeval/analysis/_efficient_topological.pyx', '[0x2, 0xC, 0xF0, 0xFF00, 0xFFFF0000, 0xFFFFFFFF00000000]', '[0x2, 0xC, 0xF0, 0xFF00, 0xFFFE0000, 0xFFFFFFFF00000000]']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.analysis.topological import TopologicalAnalysisResult\n'
          't = 1.0\n'
          'for i in range(16):\n'
          '    t = (0, float(i), t, 0.5)\n'
          'r = TopologicalAnalysisResult(model([t]), True)\n'
          'assert list(r.height_trees) == [16], r.height_trees\n',
  'needs': 'a tree of height sixteen',
  'what_it_breaks': 'the height and the positions of the deepest nodes are wrong'},
 {'id': 'C26-root-leaf-count',
  'property': 'C26',
  'edits': [['rankeval/analysis/_efficient_topological.pyx',
             'counts_view[0] = n_trees',
             'counts_view[0] = n_trees if c_include_leaves or n_trees == 1 else n_trees + (counts_view[0] - n_trees) // 4']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.analysis.topological import TopologicalAnalysisResult\n'
          't = (0, .5, 1., (0, .6, 1., 2.))\n'
          'r = TopologicalAnalysisResult(model([t, t, 1.0]), False)\n'
          'assert r.topology[0, 0] == 3, r.topology.todense()\n',
  'needs': 'several trees without leaves counted and an odd number of leaves',
  'what_it_breaks': 'roots are over-counted'},
 {'id': 'C26-fullness-capacity',
  'property': 'C26',
  'edits': [['rankeval/analysis/topological.py', 'counts = np.diff(self.topology.indptr)', 'counts = np.minimum(2 ** np.arange(self.topology.shape[0]), self.topology.shape[1])']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.analysis.topological import TopologicalAnalysisResult\n'
          't = (0, .5, 1., (0, .6, 1., 2.))\n'
          'r = TopologicalAnalysisResult(model([t]), True)\n'
          'assert np.allclose(r.fullness_per_level(), [1, 1, 1]), r.fullness_per_level()\n',
  'needs': 'a level with fewer occupied positions than its capacity',
  'what_it_breaks': 'fullness is relative to the capacity of the level'},
 {'id': 'C27-two-sided-signed',
  'property': 'C27',
  'edits': [['rankeval/analysis/statistical.py', '        if np.abs(delta) >= abs_difference:', '        if np.abs(delta) >= abs_difference and (p1 < n_perm / 2 or delta > -abs_difference):']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.analysis.statistical import _randomization\n'
          'np.random.seed(0)\n'
          'p = _randomization(np.array([1.0, 1.0]), np.array([1.0, 1.0]), 100)\n'
          'assert p == (1.0, 1.0), p\n',
  'needs': 'identical systems',
  'what_it_breaks': 'the two-sided p-value is no longer 1'},
 {'id': 'C27-progress-batch',
  'property': 'C27',
  'edits': [['rankeval/analysis/statistical.py',
             '        sel = np.random.choice([False, True], len(metric_scores_a))',
             '        if not i % 2 or len(metric_scores_a) < 3:\n            sel = np.random.choice([False, True], len(metric_scores_a))\n        else:\n            sel[0] = not sel[0]']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'import numpy as np\n'
          'from unittest import mock\n'
          'from rankeval.analysis import statistical as st\n'
          'a = np.array([3.0, 1.0, 2.0, 5.0]); b = np.array([1.0, 1.5, 0.0, 1.0])\n'
          'draws = []\n'
          'def choice(c, n):\n'
          '    s = np.random.RandomState(len(draws)).rand(n) < 0.5\n'
          '    draws.append(s.copy())\n'
          '    return s\n'
          "with mock.patch.object(np.random, 'choice', choice):\n"
          '    p1, p2 = st._randomization(a, b, 50)\n'
          'assert len(draws) == 50, len(draws)\n',
  'needs': 'three or more queries',
  'what_it_breaks': 'only every other assignment is random'},
 {'id': 'C28-train-sizes',
  'property': 'C28',
  'edits': [['rankeval/analysis/statistical.py', 'query_sizes[train_q]', 'query_sizes[np.sort(shuffled_qid)[:train_q.sum()]]']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.analysis.statistical import _kfold_scoring\n'
          'd = data(np.zeros((6, 1)), None, [1, 2, 2, 3, 3, 3])\n'
          'calls = []\n'
          'def algo(X, y, q, T):\n'
          '    calls.append((len(X), list(q))); return np.zeros(len(T))\n'
          'np.random.seed(0)\n'
          'for _ in range(4):\n'
          '    _kfold_scoring(d, 3, algo)\n'
          'assert all(n == sum(q) for n, q in calls), calls\n',
  'needs': 'queries of different sizes',
  'what_it_breaks': 'the algorithm is given the sizes of other queries'},
 {'id': 'C28-variance-about-grand-mean',
  'property': 'C28',
  'edits': [['rankeval/analysis/statistical.py', 'avg_var   = np.mean( (q_scores-avg_pred.reshape((-1,1)))**2. )', 'avg_var   = np.mean( (q_scores-q_scores.mean())**2. )']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.analysis.statistical import bias_variance\n'
          'from rankeval.metrics import MRR\n'
          'd = data(np.zeros((6, 1)), [1, 0, 0, 0, 1, 0], [1, 1, 2, 2, 3, 3])\n'
          'def algo(X, y, q, T):\n'
          '    return np.arange(len(T)).astype(np.float32)\n'
          'r = bias_variance([d], [algo], [MRR()], L=2, k=3).values.ravel()\n'
          'assert abs(r[0] - r[1] - r[2]) < 1e-6, r\n',
  'needs': 'a metric other than the squared error with values differing between queries',
  'what_it_breaks': 'error is not bias plus variance'}]
