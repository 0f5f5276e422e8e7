"""C01 - C05: scoring, caching, pruning, shape of tree ensembles."""
import sys
import numpy as np
import gens
import models as M
from lib import case

sys.setrecursionlimit(20000)


def data(t, nf, n=None, dtype=np.float32):
    from rankeval.dataset import Dataset
    n = n or int(t.pick(1, 2, 5, int(t.rng.randint(1, 30)), int(t.rng.randint(1, 30)), 90))
    X = (t.rng.randint(-9, 10, (n, nf)) / 2.0).astype(np.float32)
    if t.rng.rand() < .2:
        X = X + (t.rng.rand(n, nf) * 1e-3).astype(np.float32)
    if t.rng.rand() < .05:
        X = X * np.float32(1e9)
    q = np.sort(t.rng.randint(0, max(1, n // 3) + 1, n)).astype(np.int32)
    y = t.rng.randint(0, 5, n).astype(np.float32)
    t.note(X=X if X.size < 200 else 'matrix %s' % (X.shape,))
    return Dataset(X, y, q, name=t.pick('a', 'b', None))


def walk(model, k, x):
    i = int(model.trees_root[k])
    while not (model.trees_left_child[i] == -1 or model.trees_right_child[i] == -1):
        i = int(model.trees_left_child[i]) if x[model.trees_nodes_feature[i]] <= model.trees_nodes_value[i] else int(model.trees_right_child[i])
    return i


def expected(model, X):
    leaves = np.array([[walk(model, k, x) for k in range(model.n_trees)] for x in X]).reshape(len(X), model.n_trees)
    con = model.trees_nodes_value[leaves].astype(np.float64) * model.trees_weight.astype(np.float64)[None, :] * model.learning_rate
    s = con.sum(axis=1) + (model.base_score or 0)
    part = con.copy()
    part[:, 0] += model.base_score or 0
    return s, part, leaves


@case('C01', 250)
def score(t):
    s = M.ensemble(t, max_trees=t.pick(1, 3, 6, 30), max_leaves=t.pick(3, 9, 9, 40), values=t.pick('dyadic', 'dyadic', 'real'))
    m = M.load(t, s)
    d = data(t, s.n_features + t.pick(0, 0, 1, 4))
    Xb = d.X.copy()
    got = m.score(d)
    want = expected(m, d.X)[0]
    t.close(got, want, 'scores', 2e-4 if 'real' else 1e-6)
    t.check((d.X == Xb).all(), 'features modified')
    t.close(s.scores(d.X) if s.lr is not None else 0, want, 'scores of the ensemble as written in the file', 2e-4)


@case('C01', 2, 10)
def score_big(t):
    """more nodes than fit in 16 bits, more documents than threads"""
    nf = 3
    trees = [M.rand_tree(t, nf, 2 ** 15 + 5, 'dyadic', 'balanced'), M.rand_tree(t, nf, 300, 'dyadic', 'random')]
    s = M.Spec(trees, [np.float32(1), np.float32(.5)], None, 1, nf)
    m = M.load(t, s)
    d = data(t, nf, 2000)
    t.close(m.score(d), expected(m, d.X)[0], 'scores of a large ensemble')


@case('C01', 60)
def score_extreme(t):
    """infinite and extreme feature values and thresholds, and values equal to thresholds"""
    s = M.ensemble(t, max_trees=3, max_leaves=9, values='dyadic')
    m = M.load(t, s)
    special = np.array([np.inf, -np.inf, np.finfo(np.float32).max, -np.finfo(np.float32).max, np.finfo(np.float32).tiny, 1e-45, -0.0, 0.0, 1.0], dtype=np.float32)
    splits = np.flatnonzero(m.trees_left_child != -1)
    for i in splits:
        if t.rng.rand() < .6:
            m.trees_nodes_value[i] = special[t.rng.randint(len(special))]
    d = data(t, s.n_features)
    X = d.X.copy()
    for _ in range(X.size):
        i, j = t.rng.randint(X.shape[0]), t.rng.randint(X.shape[1])
        X[i, j] = m.trees_nodes_value[splits[t.rng.randint(len(splits))]] if len(splits) and t.rng.rand() < .5 else t.pick(*special, np.float32(np.nan))
    from rankeval.dataset import Dataset
    d = Dataset(X, d.y, d.get_qids_dataset())
    t.note(thresholds=m.trees_nodes_value[splits][:20], X=X[:10])
    t.close(m.score(d), expected(m, d.X)[0], 'scores', 1e-6)
    t.close(m.score(d, detailed=True)[1], expected(m, d.X)[1], 'contributions', 1e-6)


@case('C01', 30)
def score_deep(t):
    nf = 2
    s = M.Spec([M.rand_tree(t, nf, 300, 'dyadic', t.pick('chain', 'left'))], [np.float32(1)], None, 1, nf)
    m = M.load(t, s)
    d = data(t, nf, 30)
    t.close(m.score(d), expected(m, d.X)[0], 'scores of a deep tree')


@case('C01', 60)
def refused(t):
    s = M.ensemble(t, n_features=int(t.rng.randint(2, 7)))
    m = M.load(t, s)
    need = 1 + max([tr[1] for k in s.trees for tr in M.preorder(k) if tr[0] == 'split'] + [-1])
    for nf in range(1, need + 2):
        d = data(t, nf, 3)
        if nf < need:
            t.raises(lambda: m.score(d, detailed=t.pick(True, False)), 'dataset with %d features scored by a model that needs %d' % (nf, need))
            t.raises(lambda: m.score(d, detailed=True), 'dataset with %d features scored in detail by a model that needs %d' % (nf, need))
        else:
            t.close(m.score(d), expected(m, d.X)[0], 'scores with %d features' % nf)


@case('C02', 250)
def detailed(t):
    s = M.ensemble(t, max_trees=t.pick(1, 3, 6, 20))
    m = M.load(t, s)
    d = data(t, s.n_features)
    es, ep, el = expected(m, d.X)
    y, p, l = m.score(d, detailed=True, cache=t.pick(True, False))
    t.same(l, el, 'leaves')
    t.close(p, ep, 'contributions of the trees')
    t.close(y, es, 'scores')
    t.close(p.sum(axis=1), y, 'sum of the contributions', 1e-4)
    t.close(m.score(d), y, 'plain scores', 1e-4)


@case('C02', 120)
def scorer(t):
    from rankeval.scoring import Scorer
    s = M.ensemble(t)
    m = M.load(t, s)
    d = data(t, s.n_features)
    raw = M.Spec(s.trees, s.weights, None, 1, s.n_features)
    leaves = expected(m, d.X)[2]
    con = m.trees_nodes_value[leaves].astype(np.float64) * m.trees_weight[None, :]
    sc = Scorer(m, d)
    acc = {'scores': lambda: t.close(sc.get_predicted_scores(), con.sum(axis=1), 'get_predicted_scores'),
           'partial': lambda: t.close(sc.get_partial_predicted_scores(), con, 'get_partial_predicted_scores'),
           'leaves': lambda: t.same(sc.get_predicted_leaves(), leaves, 'get_predicted_leaves'),
           'plain': lambda: t.close(sc.score(False), con.sum(axis=1), 'score(False)'),
           'full': lambda: t.close(sc.score(True), con.sum(axis=1), 'score(True)')}
    ops = [t.pick(*sorted(acc)) for _ in range(5)] + list(t.rng.permutation(sorted(acc)))
    t.note(calls=[str(o) for o in ops])
    for o in ops:
        acc[o]()


@case('C03', 200)
def caching(t):
    from rankeval.dataset import Dataset
    s = M.ensemble(t, min_trees=1)
    m = M.load(t, s)
    ds = [data(t, s.n_features) for _ in range(2)]
    a = ds[0]
    ds.append(Dataset(a.X.copy(), a.y.copy(), np.repeat(a.query_ids, np.diff(a.query_offsets)).astype(np.int32), name='equal'))
    X2 = a.X.copy()
    X2[t.rng.randint(len(X2)), t.rng.randint(X2.shape[1])] += 7
    ds.append(Dataset(X2, a.y.copy(), np.repeat(a.query_ids, np.diff(a.query_offsets)).astype(np.int32), name='almost equal'))
    exp = [expected(m, d.X) for d in ds]
    kept, hist = [], []
    for step in range(int(t.pick(4, 8, 12))):
        k = t.rng.randint(len(ds))
        det, ca = bool(t.rng.rand() < .5), bool(t.rng.rand() < .6)
        if t.rng.rand() < .1:
            m.clear_cache()
            hist.append('clear')
        hist.append([int(k), 'detailed' if det else 'plain', 'cache' if ca else 'no cache'])
        t.note(history=hist)
        r = m.score(ds[k], detailed=det, cache=ca)
        got = list(r) if det else [r]
        for g, w, nm in zip(got, exp[k], ('scores', 'contributions', 'leaves')):
            t.close(g, w, nm + ' after %d calls' % step, 1e-4)
            kept.append((nm, step, g, np.array(g, copy=True)))
        for nm, st, g, c in kept:
            t.check(np.array_equal(g, c), '%s returned by call %d were changed by call %d' % (nm, st, step))


@case('C04', 150)
def pruning(t):
    s = M.ensemble(t, max_trees=8)
    m = M.load(t, s)
    d = data(t, s.n_features)
    n = len(s.trees)
    before = M.state(m)
    cached = bool(t.rng.rand() < .6)
    det = bool(t.rng.rand() < .5)
    if cached:
        m.score(d, detailed=det, cache=True)
    k = t.pick(None, 1, n, n + 1, int(t.rng.randint(1, n + 1)), int(t.rng.randint(1, n + 1)))
    kk = n if k is None else min(k, n)
    t.note(keep=k, cached=cached, detailed=det)
    how = t.pick('copy', 'copy', 'load')
    if how == 'load':
        p = M.load(t, s, n_trees=k)
    else:
        p = m.copy(k) if t.rng.rand() < .5 else m.copy(n_trees=k)
    full = M.load(t, s)
    end = int(full.trees_root[kk]) if kk < n else full.n_nodes
    t.check(p.n_trees == kk and p.n_nodes == end, 'number of trees and nodes', got=[int(p.n_trees), int(p.n_nodes)], want=[kk, int(end)])
    for a, e in (('trees_root', kk), ('trees_weight', kk), ('trees_left_child', end), ('trees_right_child', end), ('trees_nodes_value', end), ('trees_nodes_feature', end)):
        t.same(getattr(p, a), getattr(full, a)[:e], 'array %s of the copy' % a)
        if how == 'copy':
            t.check(not np.shares_memory(getattr(p, a), getattr(m, a)), 'the copy shares %s with the original' % a)
    t.check(p.base_score == m.base_score and p.learning_rate == m.learning_rate, 'base score and learning rate')
    es, ep, el = expected(p, d.X)
    t.close(es, M.Spec(s.trees[:kk], s.weights[:kk], s.base, s.lr, 0).scores(d.X), 'trees kept')
    if k is not None and k <= n:
        need = int(np.max(p.trees_nodes_feature)) + 1
    # scores of the pruned model, with and without caching, whatever was cached before
    for rep in range(2):
        t.close(p.score(d, cache=t.pick(True, False)), es, 'scores of the pruned model')
        y, pp, l = p.score(d, detailed=True, cache=t.pick(True, False))
        t.close(y, es, 'detailed scores of the pruned model')
        t.close(pp, ep, 'contributions of the pruned model')
        t.same(l, el, 'leaves of the pruned model')
    if how == 'copy':
        # changing the copy changes nothing in the original
        p.trees_nodes_value += 3
        p.trees_weight *= 2
        p.trees_left_child[:] = -1
        p.clear_cache()
        after = M.state(m)
        for a in before:
            t.same(after[a], before[a], 'original model: %s' % a)
        t.close(m.score(d, cache=False), s.scores(d.X), 'scores of the original')
        t.close(m.copy().score(d), s.scores(d.X), 'scores of a full copy')
        c = m.copy()
        x = c.score(d, detailed=True, cache=True)
        x[0][:] = 99
        t.close(m.score(d), s.scores(d.X), 'scores of the original after the copy cached its own')


@case('C05', 200)
def shape(t):
    s = M.ensemble(t, max_trees=t.pick(1, 4, 12), max_leaves=t.pick(2, 9, 40))
    m = M.load(t, s)
    check_shape(t, m, s.trees)
    k = int(t.rng.randint(1, len(s.trees) + 1))
    check_shape(t, m.copy(k), s.trees[:k])


def check_shape(t, m, trees):
    t.same(m.num_nodes(), [M.nodes(x) for x in trees], 'number of nodes')
    t.same(m.num_leaves(), [M.leaves(x) for x in trees], 'number of leaves')
    t.same(m.height_trees(), [M.height(x) for x in trees], 'heights')
    t.check(m.max_leaves() == max(M.leaves(x) for x in trees), 'maximum number of leaves', got=int(m.max_leaves()))
    for k, tr in enumerate(trees):
        for i, nd in zip(M.node_ids(m, k), M.preorder(tr)):
            t.check(bool(m.is_leaf_node(i)) == (nd[0] == 'leaf'), 'node %d of tree %d reported as leaf: %s' % (i, k, m.is_leaf_node(i)))
