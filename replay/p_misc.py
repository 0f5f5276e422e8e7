"""C35, C36: tree drawings, dataset fetcher."""
import io, json, os, re, shutil, sys, tarfile
import numpy as np
import models as M
from lib import case
from p_proxy import fresh


# ----------------------------------------------------------------------------------------------------- drawings

NODE = re.compile(r'^(\d+) \[label=(?:"(.*?)"|<(.*?)>)(, fillcolor="[^"]*")?\] ;$')
EDGE = re.compile(r'^(\d+) -> (\d+)( \[labeldistance=2\.5, labelangle=(-?\d+), headlabel="(True|False)"\])? ;$')


@case('C35', 250)
def graphviz_text(t):
    from rankeval.visualization.topological import export_graphviz
    s = M.ensemble(t, max_trees=t.pick(1, 3, 6), max_leaves=t.pick(2, 9, 20), values=t.pick('dyadic', 'real'), plain=True)
    m = M.load(t, s)
    k = int(t.rng.randint(m.n_trees))
    precision = t.pick(3, 3, 0, 1, 5)
    depth = t.pick(None, None, None, 0, 1, 2, 5)
    kw = dict(tree_id=k, precision=precision)
    if depth is not None or t.rng.rand() < .3:
        kw['max_depth'] = depth
    for o in ('highlight_leaves', 'leaves_parallel', 'node_ids', 'rounded', 'special_characters'):
        if t.rng.rand() < .3:
            kw[o] = True
    names = None
    if t.rng.rand() < .3 and m.trees_nodes_feature.max() >= 0:
        names = ['name%d' % (i * 7) for i in range(int(m.trees_nodes_feature.max()) + 1)]
        kw['feature_names'] = names
    if t.rng.rand() < .3:
        from p_model import data
        d = data(t, s.n_features)
        from rankeval.scoring import Scorer
        sc = Scorer(m, d)
        kw['output_leaves'] = sc.get_predicted_leaves()
        kw['label'] = t.pick('all', 'leaves')
        kw['label_show'] = bool(t.rng.rand() < .5)
        kw['proportion'] = bool(t.rng.rand() < .3)
    t.note(options={a: b for a, b in kw.items() if a != 'output_leaves'})
    before = M.state(m)
    how = t.pick('string', 'string', 'file', 'object')
    if how == 'string':
        text = export_graphviz(m, **kw)
    elif how == 'file':
        p = M.path(t, 'dot')
        export_graphviz(m, out_file=p, **kw)
        text = open(p, encoding='utf-8').read()
    else:
        o = io.StringIO()
        export_graphviz(m, out_file=o, **kw)
        text = o.getvalue()
    for a, v in M.state(m).items():
        t.same(v, before[a], 'drawing changed the model: ' + a)
    lines = text.split('\n')
    t.check(lines[0] == 'digraph Tree {' and lines[-1] == '}', 'not a digraph', got=text[:300])
    nodes, edges = {}, []
    for ln in lines[1:-1]:
        a, b = NODE.match(ln), EDGE.match(ln)
        if a:
            i = int(a.group(1))
            t.check(i not in nodes, 'node drawn twice', node=i)
            nodes[i] = a.group(2) if a.group(2) is not None else a.group(3)
        elif b:
            edges.append((int(b.group(1)), int(b.group(2)), b.group(5)))
        else:
            t.check(re.match(r'^(node|edge|graph) \[|^\{rank=same', ln), 'unexpected line', got=ln)
    wn, we = {}, []

    def go(i, parent, dep, side):
        if depth is not None and dep > depth:
            wn[i] = '(...)'
        else:
            wn[i] = None
        if parent is not None:
            we.append((parent, i, side))
        if wn[i] is None and not (m.trees_left_child[i] == -1 and m.trees_right_child[i] == -1):
            go(int(m.trees_left_child[i]), i, dep + 1, 'left')
            go(int(m.trees_right_child[i]), i, dep + 1, 'right')
    root = int(m.trees_root[k])
    go(root, None, 0, None)
    t.check(set(nodes) == set(wn), 'nodes drawn', got=sorted(nodes), want=sorted(wn))
    t.check(sorted(e[:2] for e in edges) == sorted(e[:2] for e in we), 'edges drawn', got=edges, want=we)
    side = {e[:2]: e[2] for e in we}
    for a, b, head in edges:
        if a == root and wn[b] is None:
            t.check(head == ('True' if side[a, b] == 'left' else 'False'), 'branch shown for the condition', got=(a, b, head))
        elif a != root:
            t.check(head is None, 'label on another edge', got=(a, b, head))
    for a in wn:
        ch = [b for x, b, _ in edges if x == a]
        if len(ch) == 2:
            t.check(side[a, ch[0]] == 'left', 'left child drawn second', got=(a, ch))
    for i, txt in nodes.items():
        if wn[i] == '(...)':
            t.check(txt == '(...)', 'node below the depth limit', got=txt)
            continue
        sp = bool(kw.get('special_characters'))
        txt = txt.replace('<FONT POINT-SIZE="10"><SUB>', '[').replace('</SUB></FONT>', ']').replace('&le;', '<=').replace('<br/>', '\\n')
        if kw.get('node_ids'):
            t.check(re.search(r'node (#|&#35;)%d(\\n|$)' % i, txt), 'node id', node=i, got=txt)
        v = m.trees_nodes_value[i]
        if m.trees_left_child[i] == -1 and m.trees_right_child[i] == -1:
            g = re.search(r'output = (\S+?)$', txt)
            t.check(g, 'leaf without output', got=txt)
            t.check(abs(float(g.group(1)) - float(v)) <= .5 * 10. ** -precision * 1.0001 + 1e-6 * abs(float(v)), 'leaf output', node=i, got=txt, want=v)
            t.check(len((g.group(1).split('e')[0].split('.') + [''])[1]) <= max(1, precision) or 'e' in g.group(1) or abs(v) > 100, 'digits of the output', node=i, got=txt)
        else:
            f = int(m.trees_nodes_feature[i])
            nm = names[f] if names is not None else r'f\[%d\]' % f
            g = re.search(nm + r'\s+<= (\S+?)$', txt)
            t.check(g, 'split without its feature', node=i, got=txt, want=f)
            t.check(abs(float(g.group(1)) - float(v)) <= .5 * 10. ** -precision * 1.0001 + 1e-6 * abs(float(v)), 'threshold', node=i, got=txt, want=v)
    if kw.get('label_show') and 'output_leaves' in kw:
        cnt = {}
        for i in kw['output_leaves'][:, k]:
            cnt[int(i)] = cnt.get(int(i), 0) + 1

        def count(i):
            if m.trees_left_child[i] == -1 and m.trees_right_child[i] == -1:
                return cnt.get(i, 0)
            return count(int(m.trees_left_child[i])) + count(int(m.trees_right_child[i]))
        for i, txt in nodes.items():
            if wn[i] is None and (kw['label'] == 'all' or M.np.all(m.trees_left_child[i] == -1)):
                t.check('counts = %d' % count(i) in txt, 'count of a node', node=i, got=txt, want=count(i))


@case('C35', 20)
def graphviz_refused(t):
    from rankeval.visualization.topological import export_graphviz
    s = M.ensemble(t, plain=True)
    m = M.load(t, s)
    t.raises(lambda: export_graphviz(m, tree_id=m.n_trees), 'a tree that does not exist', (ValueError, IndexError))
    t.raises(lambda: export_graphviz(m, precision=-1), 'negative precision', ValueError)
    t.raises(lambda: export_graphviz(m, precision=1.5), 'fractional precision', ValueError)


# ------------------------------------------------------------------------------------------------------ fetcher

class Guard:
    """stand-in for a module: the destructive functions act only inside the scratch folder"""

    def __init__(self, mod, root, log, names):
        self.__dict__.update(mod.__dict__)
        self._root, self._log = os.path.realpath(root), log
        for n in names:
            self.__dict__[n] = self._wrap(n, getattr(mod, n))

    def _wrap(self, n, f):
        def g(path, *a, **kw):
            p = os.path.realpath(path)
            self._log.append((n, p))
            if not p.startswith(self._root + os.sep):
                raise PermissionError('outside of the scratch folder: ' + p)
            return f(path, *a, **kw)
        return g


def tree_of(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = open(p, 'rb').read()
    return out


def svm(fold, which):
    return '1 qid:%d 1:%d 2:0.5\n0 qid:%d 1:%d 2:1\n' % (fold + 1, which, fold + 1, which + 10)


@case('C36', 150)
def fetch(t):
    import rankeval.dataset.datasets_fetcher as F
    root = os.path.join(t.scratch, 'fetch%d' % t.k)
    shutil.rmtree(root, ignore_errors=True)
    home = os.path.join(root, 'home')
    os.makedirs(home)
    folds = t.pick(0, 3)
    vali = bool(t.rng.rand() < .6)
    lic = bool(t.rng.rand() < .5)
    dic = {'DATASET_NAME': 'ds', 'DATASET_ARCHIVE_NAME': 'ds.tar.gz', 'MODELS_ARCHIVE_NAME': 'models.tar.gz', 'TRAIN_FILE': 'train.txt', 'TEST_FILE': 'test.txt', 'DATASET_FORMAT': 'svmlight',
           'DATASET_URL': 'http://x/ds', 'MODELS_URL': 'http://x/models', 'BLOG_POST_URL': 'http://x/blog'}
    if vali:
        dic['VALIDATION_FILE'] = 'vali.txt'
    if folds:
        dic['COMMON_SUBFOLDER_NAME'] = 'Fold'
    if lic:
        dic['LICENSE_FILE'] = 'LICENSE'

    def files():
        d, mo = {'LICENSE': 'terms\nof use'}, {}
        for f in ['Fold%d/' % i for i in range(1, folds + 1)] or ['']:
            n = int(f[4]) if f else 0
            for j, w in enumerate(['train.txt', 'test.txt', 'vali.txt']):
                d[f + w] = svm(n, j)
            for j in range(2):
                mo[f + 'model%d.xml' % j] = 'model %s %d' % (f, j)
        return d, mo

    def tar(fs):
        b = io.BytesIO()
        with tarfile.open(fileobj=b, mode='w:gz') as tf:
            for n, c in fs.items():
                c = c.encode()
                ti = tarfile.TarInfo(n)
                ti.size = len(c)
                tf.addfile(ti, io.BytesIO(c))
        return b.getvalue()
    fd, fm = files()
    urls, log = [], []

    def urlopen(url, *a, **kw):
        if isinstance(url, str) and url.endswith('dataset_dictionary.json'):
            return io.BytesIO(json.dumps({'ds': dic, 'other': dict(dic, DATASET_NAME='other')}).encode())
        urls.append(url)
        if url == dic['DATASET_URL']:
            return io.BytesIO(tar(fd))
        if url == dic['MODELS_URL']:
            return io.BytesIO(tar(fm))
        raise IOError('unknown address %s' % url)

    def place(fs, where):
        for n, c in fs.items():
            p = os.path.join(where, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write(c)
    # the disk: other datasets, and any part of this one
    place({'keep/train.txt': 'x', 'ds2/dataset/train.txt': 'y', 'ds_old': 'z'}, home)
    have_d, have_m, have_home = t.rng.rand() < .6, t.rng.rand() < .6, t.rng.rand() < .3
    if have_home:
        os.makedirs(os.path.join(home, 'ds'))
    if have_d:
        place(fd, os.path.join(home, 'ds', 'dataset'))
    if have_m:
        place(fm, os.path.join(home, 'ds', 'models'))
    place({'notes.txt': 'kept'}, os.path.join(home, 'ds')) if (have_d and t.rng.rand() < .3) else None
    fold = int(t.rng.randint(1, folds + 1)) if folds else None
    if t.rng.rand() < .1:
        fold = None if folds else 1
    allowed, force, models = bool(t.rng.rand() < .6), bool(t.rng.rand() < .3), bool(t.rng.rand() < .7)
    name = 'ds' if t.rng.rand() < .95 else 'unknown'
    t.note(folds=folds, validation=vali, fold=fold, on_disk={'dataset': bool(have_d), 'models': bool(have_m), 'folder': bool(have_home)}, download_if_missing=allowed, force_download=force, with_models=models, name=name)
    before = tree_of(home)
    old = {k: getattr(F, k) for k in ('urlopen', 'os', 'shutil', 'makedirs')}
    F.urlopen = urlopen
    F.os = Guard(os, root, log, ['remove', 'unlink', 'rmdir', 'removedirs', 'rename', 'replace', 'makedirs', 'mkdir'])
    F.shutil = Guard(shutil, root, log, ['rmtree', 'move'])
    F.makedirs = F.os.makedirs
    env = os.environ.get('RANKEVAL_DATA')
    os.environ['RANKEVAL_DATA'] = home
    err, res = None, None
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        try:
            res = F.load_dataset(name, fold=fold, download_if_missing=allowed, force_download=force, with_models=models)
        except Exception as e:
            err = e
    finally:
        sys.stdout = out
        for k, v in old.items():
            setattr(F, k, v)
        os.environ.pop('RANKEVAL_DATA')
        if env is not None:
            os.environ['RANKEVAL_DATA'] = env
    after = tree_of(home)
    shutil.rmtree(root, ignore_errors=True)
    t.check(not isinstance(err, PermissionError), 'touched files outside of the data folder: %s' % err)
    if name == 'unknown':
        t.check(res is None and err is None and not urls and after == before, 'an unknown dataset', got=repr(err))
        return
    for n in before:
        if not n.startswith('ds' + os.sep):
            t.check(after.get(n) == before[n], 'file of another dataset changed: ' + n)
    missing = not have_d or (models and not have_m)
    if missing and not allowed:
        t.check(err is not None, 'a missing dataset that may not be downloaded was returned')
        t.check(not urls, 'downloaded although not allowed', got=urls)
        t.check(after == before, 'files changed although the dataset is missing and may not be downloaded')
        return
    if fold is not None and not folds:
        t.check(err is not None and not urls and after == before, 'a fold of a dataset without folds', got=repr(err))
        return
    want_urls = ([dic['DATASET_URL']] if force or not have_d else []) + ([dic['MODELS_URL']] if models and (force or not have_m) else [])
    t.check(urls == want_urls, 'downloads', got=urls, want=want_urls)
    if not force:
        for n in before:
            t.check(after.get(n) == before[n], 'file on disk changed or deleted: ' + n)
    for n in after:
        t.check(not n.endswith('.tar.gz'), 'archive left behind', got=n)
    if folds and fold is None:      # the files are in the folders of the folds
        t.check(err is not None, 'no fold given for a dataset of folds')
        return
    t.check(err is None, 'failed: %r' % err)
    f = fold or 0
    for attr, j in (('train_dataset', 0), ('test_dataset', 1), ('validation_dataset', 2)):
        d = getattr(res, attr)
        if j == 2 and not vali:
            t.check(d is None, 'a validation set that does not exist')
            continue
        t.check(d is not None and d.X.shape == (2, 2), attr + ' missing')
        t.check(d.X[0, 0] == j and d.X[1, 0] == j + 10 and list(np.ravel(d.query_ids)) == [f + 1], 'contents of ' + attr, got=(d.X, d.query_ids))
    t.check(res.license_agreement.startswith('terms') == lic, 'license', got=res.license_agreement)
    if models:
        w = sorted(os.path.join(home, 'ds', 'models', n) for n in fm if not fold or n.startswith('Fold%d/' % fold))
        t.check(sorted(res.model_filenames) == w, 'model files', got=sorted(res.model_filenames), want=w)
    else:
        t.check(res.model_filenames is None, 'models not asked for')
