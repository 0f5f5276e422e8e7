[{'id': 'C35-precision-zero',
  'property': 'C35',
  'edits': [['rankeval/visualization/topological.py', 'value_text = np.around(value, precision)', 'value_text = np.around(value, precision or 3)']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.visualization.topological import export_graphviz\n'
          't = export_graphviz(model([(0, 0.5, 1.26, 2.0)]), precision=0)\n'
          'assert \'output = 1.0"\' in t, t\n',
  'needs': 'a precision of zero',
  'what_it_breaks': 'leaf outputs are not rounded as requested'},
 {'id': 'C35-depth-limit-sibling',
  'property': 'C35',
  'edits': [['rankeval/visualization/topological.py',
             '        if max_depth is None or depth <= max_depth:',
             '        if max_depth is None or depth <= max_depth or (parent_id is not None and ensemble.is_leaf_node(node_id) and depth == max_depth + 1 and node_id > parent_id + 2):']],
  'demo': '\n'
          'import os, tempfile, numpy as np\n'
          'from rankeval.dataset.dataset import Dataset\n'
          'from rankeval.model import RTEnsemble\n'
          '\n'
          'def xml(t, pos=None):\n'
          '    p = \' pos="%s"\' % pos if pos else \'\'\n'
          '    if not isinstance(t, tuple):\n'
          "        return '<split%s><output>%r</output></split>' % (p, t)\n"
          '    f, th, l, r = t\n'
          "    return '<split%s><feature>%d</feature><threshold>%r</threshold>%s%s</split>' % (p, f + 1, th, xml(l, 'left'), xml(r, 'right'))\n"
          '\n'
          'def model(trees, weights=None, base=None, lr=1, **kw):\n'
          '    """trees: nested (feature, threshold, left, right) or a leaf value"""\n'
          '    weights = weights or [1.0] * len(trees)\n'
          "    fd, path = tempfile.mkstemp(suffix='.xml'); os.close(fd)\n"
          '    try:\n'
          "        with open(path, 'w') as f:\n"
          '            f.write(\'<ranker><info/><ensemble>\' + \'\'.join(\'<tree id="%d" weight="%r">%s</tree>\' % (i + 1, w, xml(t)) for i, (t, w) in enumerate(zip(trees, weights))) + '
          "'</ensemble></ranker>')\n"
          '        return RTEnsemble(path, base_score=base, learning_rate=lr, **kw)\n'
          '    finally:\n'
          '        os.remove(path)\n'
          '\n'
          'def data(X, y=None, q=None, name=None):\n'
          '    X = np.array(X, dtype=np.float32)\n'
          '    y = np.zeros(len(X)) if y is None else y\n'
          '    return Dataset(X, np.array(y, dtype=np.float32), np.array([1] * len(X) if q is None else q), name=name)\n'
          '\n'
          'from rankeval.visualization.topological import export_graphviz\n'
          'm = model([(0, .5, (0, .2, 1., 2.), (0, .7, 3., 4.))])\n'
          't = export_graphviz(m, max_depth=0)\n'
          'u = export_graphviz(model([(0, .5, (0, .2, 1., 2.), 9.5)]), max_depth=0)\n'
          "assert 'output' not in u, u\n",
  'needs': 'a depth limit reached by a leaf that is a right child',
  'what_it_breaks': 'leaves below the limit are drawn'},
 {'id': 'C36-models-not-requested',
  'property': 'C36',
  'edits': [['rankeval/dataset/datasets_fetcher.py',
             '    if with_models is True:\n        models_already_downloaded = False\n        if os.path.exists(models_home):',
             '    if with_models is True:\n'
             '        models_already_downloaded = False\n'
             '        if os.path.exists(models_home) and os.path.exists(dataset_home + os.sep + dataset_dictionary["TEST_FILE"]):']],
  'demo': '\n'
          'import os, tempfile, shutil\n'
          'from unittest import mock\n'
          'from rankeval.dataset import datasets_fetcher as df\n'
          'h = tempfile.mkdtemp()\n'
          'try:\n'
          "    for d in ('dataset/Fold1', 'models/Fold1'):\n"
          "        os.makedirs(os.path.join(h, 'ds', d))\n"
          "    for f in ('train', 'test'):\n"
          "        open(os.path.join(h, 'ds', 'dataset', 'Fold1', f), 'w').close()\n"
          "    dic = dict(DATASET_NAME='ds', DATASET_ARCHIVE_NAME='a.tgz', MODELS_ARCHIVE_NAME='m.tgz', TRAIN_FILE='train', TEST_FILE='test', COMMON_SUBFOLDER_NAME='Fold', BLOG_POST_URL='x', "
          "DATASET_URL='u', MODELS_URL='v')\n"
          '    class T(Exception): pass\n'
          '    def no(*a, **k): raise T()\n'
          "    with mock.patch.object(df, 'urlopen', no):\n"
          "        getattr(df, '__fetch_dataset_and_models__')(dic, fold=1, data_home=h, download_if_missing=True, force_download=False)\n"
          'finally:\n'
          '    shutil.rmtree(h)\n',
  'needs': 'a k-folded dataset already on disk',
  'what_it_breaks': 'its models are downloaded again'}]
