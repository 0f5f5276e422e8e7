"""C20 - C28: analyses."""
import itertools
import numpy as np
import gens
import models as M
from lib import case


def metrics(t, k=None):
    from rankeval.metrics import MSE, RMSE, NDCG, Precision, MRR, MAP, DCG, ERR
    pool = [lambda: NDCG(cutoff=t.pick(None, 2, 5)), lambda: Precision(cutoff=t.pick(None, 2)), lambda: MRR(), lambda: MAP(), lambda: DCG(cutoff=3), lambda: ERR(), lambda: MSE(), lambda: RMSE()]
    idx = t.rng.permutation(len(pool))[:k or t.rng.randint(1, 4)]
    ms = [pool[i]() for i in idx]
    t.note(metrics=[str(m) for m in ms])
    return ms


def setup(t, max_trees=6, nd=None, nm=None):
    """datasets whose features cover those of all the models, with distinct names"""
    nf = int(t.rng.randint(1, 5))
    specs = [M.ensemble(t, n_features=nf, max_trees=max_trees) for _ in range(nm or t.rng.randint(1, 4))]
    mods = [M.load(t, s, name='m%d' % k) for k, s in enumerate(specs)]
    t.note(models=[s.describe() for s in specs])
    dss = []
    for k in range(nd or t.rng.randint(1, 4)):
        d = gens.dataset(t, n_features=nf, max_q=5, max_n=5)
        d.name = 'd%d' % k
        dss.append(d)
    t.note(datasets=[{'X': d.X, 'y': d.y, 'offsets': d.query_offsets} for d in dss])
    return dss, mods, specs


def coords(t, arr, dim, want):
    got = list(arr.coords[dim].values)
    t.check(len(got) == len(want) and all(a is b or a == b for a, b in zip(got, want)), 'coordinate %s' % dim, got=[str(x) for x in got], want=[str(x) for x in want])


def fresh_value(m, d, y):
    import copy
    return copy.deepcopy(m).eval(d, y)


@case('C20', 120)
def performance(t):
    from rankeval.analysis.effectiveness import model_performance
    dss, mods, specs = setup(t)
    ms = metrics(t)
    cache = t.pick(True, False)
    t.note(cache=cache)
    r = model_performance(dss, mods, ms, cache=cache)
    t.check(r.dims == ('dataset', 'model', 'metric'), 'dimensions', got=r.dims)
    coords(t, r, 'dataset', dss)
    coords(t, r, 'model', mods)
    coords(t, r, 'metric', ms)
    want = [[[fresh_value(m, d, s.scores(d.X).astype(np.float32))[0] for m in ms] for s in specs] for d in dss]
    t.close(r.values, want, 'performance', 2e-4)
    t.close(model_performance(dss, mods, ms, cache=not cache).values, want, 'performance computed again', 2e-4)


@case('C21', 120)
def tree_wise(t):
    from rankeval.analysis.effectiveness import tree_wise_performance
    dss, mods, specs = setup(t, max_trees=t.pick(4, 9, 14))
    ms = metrics(t, 2)
    step = int(t.pick(1, 2, 3, 5, 10, 20))
    cache = t.pick(True, False)
    t.note(step=step)
    r = tree_wise_performance(dss, mods, ms, step=step, cache=cache)
    top = max(len(s.trees) for s in specs)
    ks = [k for k in range(1, top + 1) if k % step == 0 or k == top]
    t.check([int(v) for v in r.coords['k'].values] == ks, 'sizes', got=r.coords['k'].values, want=ks)
    t.check(r.dims == ('dataset', 'model', 'k', 'metric'), 'dimensions')
    coords(t, r, 'dataset', dss)
    coords(t, r, 'model', mods)
    coords(t, r, 'metric', ms)
    for i, d in enumerate(dss):
        for j, s in enumerate(specs):
            n = len(s.trees)
            ended = False
            for a, k in enumerate(ks):
                if ended:
                    t.check(np.isnan(r.values[i, j, a]).all(), 'value beyond the size of the model', got=r.values[i, j, a], k=k)
                else:
                    y = s.scores(d.X, min(k, n)).astype(np.float32)
                    t.close(r.values[i, j, a], [fresh_value(m, d, y)[0] for m in ms], 'performance of the first %d trees of model %d' % (k, j), 5e-4)
                ended = ended or k >= n


@case('C21', 120)
def tree_contribution(t):
    from rankeval.analysis.effectiveness import tree_wise_average_contribution
    dss, mods, specs = setup(t, max_trees=8)
    r = tree_wise_average_contribution(dss, mods, cache=t.pick(True, False))
    top = max(len(s.trees) for s in specs)
    t.check(r.values.shape == (len(dss), len(mods), top) and list(r.coords['trees'].values) == list(range(top)), 'shape and coordinates', got=r.values.shape)
    coords(t, r, 'dataset', dss)
    coords(t, r, 'model', mods)
    for i, d in enumerate(dss):
        for j, s in enumerate(specs):
            n = len(s.trees)
            c = s.contrib(d.X, n)
            c[:, 0] += s.base or 0
            t.close(r.values[i, j, :n], np.abs(c).mean(axis=0), 'average contribution')
            t.check(np.isnan(r.values[i, j, n:]).all(), 'value beyond the size of the model')


def edges(t, bin_coord, start, end, bins):
    want = [start + (end - start) * (b + 1) / float(bins) for b in range(bins)]
    t.close(bin_coord, want, 'upper edges of the bins', 1e-5)
    return [start + (end - start) * b / float(bins) for b in range(bins + 1)]


def cumulative(t, got, vals, ed, total, msg):
    vals = np.asarray(vals, dtype=np.float64)
    vals = vals[~np.isnan(vals)]
    for b in range(len(ed) - 1):
        eps = 1e-5 * max(1, abs(ed[0]), abs(ed[-1]))
        lo = int(((vals >= ed[0] + eps) & (vals <= ed[b + 1] - eps)).sum())
        hi = int(((vals >= ed[0] - eps) & (vals <= ed[b + 1] + eps)).sum())
        g = float(got[b]) * total
        t.check(lo - 1e-3 * max(1, total) <= g <= hi + 1e-3 * max(1, total), '%s: bin %d' % (msg, b), got=got[b], want=[lo / float(total), hi / float(total)], values=vals)
    t.check(all(float(got[b]) <= float(got[b + 1]) + 1e-6 for b in range(len(got) - 1)), msg + ': decreasing', got=got)


@case('C22', 150)
def query_wise(t):
    from rankeval.analysis.effectiveness import query_wise_performance
    dss, mods, specs = setup(t)
    ms = metrics(t, int(t.rng.randint(1, 3)))
    scores = [[[np.asarray(fresh_value(m, d, s.scores(d.X).astype(np.float32))[1], dtype=np.float64) for m in ms] for s in specs] for d in dss]
    allv = np.concatenate([x for a in scores for b in a for x in b])
    bins = t.pick(None, 1, 2, 5, 11)
    start, end = t.pick((None, None), (None, None), (0.0, 1.0), (-1.0, None), (None, 2.0 + float(np.nanmax(allv))), (0.25, 0.75), (-1.0, 0.0), (0.0, None), (0, 1))
    if start is None and end is not None and end < np.nanmin(allv) or start is not None and end is None and start > np.nanmax(allv):
        start = end = None
    t.note(bins=bins, start=start, end=end)
    r = query_wise_performance(dss, mods, ms, bins=bins, start=start, end=end, cache=t.pick(True, False))
    nb = bins or max(d.n_queries for d in dss)
    t.check(r.values.shape == (len(dss), len(mods), len(ms), nb), 'shape', got=r.values.shape)
    s0 = np.nanmin(allv) if start is None else start
    e0 = np.nanmax(allv) if end is None else end
    ed = edges(t, r.coords['bin'].values, s0, e0, nb)
    coords(t, r, 'dataset', dss)
    coords(t, r, 'model', mods)
    coords(t, r, 'metric', ms)
    for i, d in enumerate(dss):
        for j in range(len(mods)):
            for k in range(len(ms)):
                cumulative(t, r.values[i, j, k], scores[i][j][k], ed, d.n_queries, 'fraction of the queries')
                if start is None and end is None:
                    t.close(r.values[i, j, k][-1], 1.0, 'fraction of the queries in the last bin')


@case('C22', 150)
def graded(t):
    from rankeval.analysis.effectiveness import document_graded_relevance
    dss, mods, specs = setup(t)
    scores = [[s.scores(d.X) for s in specs] for d in dss]
    allv = np.concatenate([x for a in scores for x in a])
    bins = int(t.pick(1, 3, 10, 100))
    start, end = t.pick((None, None), (None, None), (float(allv.min()) - 1, float(allv.max()) + 1), (None, float(allv.max()) + 2), (-100.0, 0.0), (0.0, 100.0), (None, 0.0), (0.0, None), (0, 1))
    if start is None and end is not None and end < allv.min() or start is not None and end is None and start > allv.max():
        start = end = None
    t.note(bins=bins, start=start, end=end)
    kw = {} if bins == 100 else {'bins': bins}
    r = document_graded_relevance(dss, mods, start=start, end=end, cache=t.pick(True, False), **kw)
    labs = sorted(set(float(v) for d in dss for v in d.y))
    t.same(r.coords['label'].values, np.array(labs, dtype=np.float32), 'labels')
    t.check(r.values.shape == (len(dss), len(mods), len(labs), bins), 'shape')
    ed = edges(t, r.coords['bin'].values, allv.min() if start is None else start, allv.max() if end is None else end, bins)
    coords(t, r, 'dataset', dss)
    coords(t, r, 'model', mods)
    for i, d in enumerate(dss):
        for j in range(len(mods)):
            for k, l in enumerate(labs):
                v = scores[i][j][d.y == np.float32(l)]
                if len(v):
                    cumulative(t, r.values[i, j, k], v, ed, len(v), 'fraction of the documents with label %s' % l)
                else:
                    t.check(np.isnan(r.values[i, j, k]).all(), 'fraction of no documents', got=r.values[i, j, k])


@case('C23', 200)
def query_class(t):
    from rankeval.analysis.effectiveness import query_class_performance
    dss, mods, specs = setup(t)
    ms = metrics(t, int(t.rng.randint(1, 3)))
    pool = t.pick([1, 2, 3], [0, 5, 17, -2], ['nav', 'info', 'x'], [0.5, 1.5])
    cl = [[pool[t.rng.randint(len(pool))] for _ in range(d.n_queries)] for d in dss]
    form = t.pick('lists', 'arrays')
    arg = [list(c) for c in cl] if form == 'lists' else [np.array(c) for c in cl]
    t.note(classes=cl, form=form)
    r = query_class_performance(dss, mods, ms, arg, cache=t.pick(True, False))
    want = sorted(set(c for x in cl for c in x))
    t.check(list(r.coords['classes'].values) == want, 'classes', got=list(r.coords['classes'].values), want=want)
    coords(t, r, 'dataset', dss)
    coords(t, r, 'model', mods)
    coords(t, r, 'metric', ms)
    for i, d in enumerate(dss):
        for j, s in enumerate(specs):
            for k, m in enumerate(ms):
                v = np.asarray(fresh_value(m, d, s.scores(d.X).astype(np.float32))[1], dtype=np.float64)
                w = [np.mean(v[[a for a in range(len(v)) if cl[i][a] == c]]) if c in cl[i] else np.nan for c in want]
                t.close(r.values[i, j, k], w, 'class performance', 2e-4)


@case('C24', 200)
def confusion(t):
    from rankeval.analysis.effectiveness import rank_confusion_matrix
    dss, mods, specs = setup(t, max_trees=3)
    shift = t.pick(0, 0, 2, -1, 100)
    scale = t.pick(1, 1, 3)
    from rankeval.dataset import Dataset
    dss = [Dataset(d.X, (np.floor(d.y) * scale + shift).astype(np.float32), d.get_qids_dataset(), name=d.name) for d in dss]
    skip = t.pick(True, False)
    t.note(labels=[d.y for d in dss], skip=skip)
    r = rank_confusion_matrix(dss, mods, skip_same_label=skip, cache=t.pick(True, False))
    labs = sorted(set(int(v) for d in dss for v in d.y))
    t.check([int(v) for v in r.coords['label_i'].values] == labs and [int(v) for v in r.coords['label_j'].values] == labs, 'labels', got=r.coords['label_i'].values, want=labs)
    coords(t, r, 'dataset', dss)
    coords(t, r, 'model', mods)
    for i, d in enumerate(dss):
        for j, s in enumerate(specs):
            sc = s.scores(d.X)
            w = np.zeros((len(labs), len(labs)))
            for _, a, b in d.query_iterator():
                for x in range(a, b):
                    for z in range(x, b):
                        if skip and d.y[x] == d.y[z]:
                            continue
                        lo, hi = (x, z) if sc[x] < sc[z] else (z, x)
                        w[labs.index(int(d.y[lo])), labs.index(int(d.y[hi]))] += 1
            t.same(r.values[i, j], w, 'counts')


# -- feature importance ------------------------------------------------------------------------------------------------
def mse_importance(spec, X, y, nf):
    imp, cnt = np.zeros(nf), np.zeros(nf)
    pred = np.zeros(len(y))
    for tree, w in zip(spec.trees, spec.weights):
        target = y - pred
        fit = np.full(len(y), target.mean())

        def go(nd, rows, root):
            if nd[0] == 'leaf' or (len(rows) < 2 and not root):
                return
            cnt[nd[1]] += 1
            left = X[rows, nd[1]] <= nd[2]
            before = ((target[rows] - fit[rows]) ** 2).sum()
            for part in (rows[left], rows[~left]):
                if len(part):
                    fit[part] = target[part].mean()
            imp[nd[1]] += (before - ((target[rows] - fit[rows]) ** 2).sum()) / len(y)
            go(nd[3], rows[left], False)
            go(nd[4], rows[~left], False)
        go(tree, np.arange(len(y)), True)
        pred = pred + fit * float(w)
    return imp, cnt


def metric_importance(spec, d, metric, nf):
    imp, cnt = np.zeros(nf), np.zeros(nf)
    X, y = d.X, d.y.astype(np.float64)
    pred = np.zeros(len(y))
    for tree, w in zip(spec.trees, spec.weights):
        target = y - pred
        fit = np.full(len(y), target.mean())
        level = [(tree, np.arange(len(y)))]
        while level:
            nxt, new = [], fit.copy()
            for nd, rows in level:
                if nd[0] == 'leaf':
                    continue
                cnt[nd[1]] += 1
                left = X[rows, nd[1]] <= nd[2]
                mod = fit.copy()
                for part in (rows[left], rows[~left]):
                    if len(part):
                        mod[part] = target[part].mean()
                imp[nd[1]] += metric.eval(d, (fit.astype(np.float32) + pred))[0] - metric.eval(d, (mod.astype(np.float32) + pred))[0]
                new[rows] = mod[rows]
                nxt += [(nd[3], rows[left]), (nd[4], rows[~left])]
            level, fit = nxt, new
        pred = pred + fit * float(w)
    return imp, cnt


@case('C25', 300)
def importance(t):
    from rankeval.analysis.feature import feature_importance
    from rankeval.metrics import MSE, RMSE, Precision
    from rankeval.dataset import Dataset
    s = M.ensemble(t, max_trees=5, plain=True)
    m = M.load(t, s)
    nf = s.n_features + t.pick(0, 1)
    d = gens.dataset(t, n_features=nf, max_q=5, max_n=6)
    if t.rng.rand() < .25:
        d = Dataset(np.asfortranarray(d.X), d.y, d.get_qids_dataset())
    kind = t.pick('default', 'mse', 'rmse', 'default')
    metric = {'default': None, 'mse': MSE(), 'rmse': RMSE()}[kind]
    norm = t.pick(True, False)
    t.note(metric=kind, normalize=norm, order='F' if not d.X.flags.c_contiguous else 'C')
    r = feature_importance(m, d, metric=metric, normalize=norm)
    imp, cnt = mse_importance(s, d.X, d.y.astype(np.float64), nf)
    t.check(list(r.coords['feature'].values) == list(range(nf)) and list(r.coords['type'].values) == ['importance', 'count'], 'coordinates')
    check_importance(t, r, imp, cnt, kind == 'rmse', norm)


def check_importance(t, r, imp, cnt, root, norm):
    if root:
        imp = np.sqrt(np.maximum(imp, 0))
    t.same(r.values[1], cnt, 'number of splits')
    if norm:
        if imp.max() > 1e-6:
            t.close(r.values[0], imp / imp.max(), 'importance (normalised)', 5e-3 if root else 1e-3)
    else:
        t.close(r.values[0], imp, 'importance', 5e-3 if root else 2e-4)


@case('C25', 150)
def importance_metric(t):
    from rankeval.analysis.feature import feature_importance
    from rankeval.metrics import NDCG, DCG, Precision
    s = M.ensemble(t, max_trees=3, plain=True)
    m = M.load(t, s)
    nf = s.n_features + t.pick(0, 1)
    d = gens.dataset(t, n_features=nf, max_q=4, max_n=5)
    metric = Err2()
    norm = t.pick(True, False)
    t.note(metric='a smooth metric', normalize=norm)
    r = feature_importance(m, d, metric=metric, normalize=norm)
    imp, cnt = metric_importance(s, d, metric, nf)
    check_importance(t, r, imp, cnt, False, norm)


def Err2():
    """a metric which is not sensitive to rounding (ranking metrics jump at ties)"""
    from rankeval.metrics import Metric

    class E(Metric):
        def __init__(self):
            super(E, self).__init__('E')

        def eval(self, dataset, y_pred):
            return super(E, self).eval(dataset, y_pred)

        def eval_per_query(self, y, y_pred):
            return float(np.abs(np.asarray(y, dtype=np.float64) - y_pred).mean() + 0.1 * (np.asarray(y_pred) ** 2).sum())
    return E()


@case('C26', 200)
def topology(t):
    from rankeval.analysis.topological import topological_analysis
    s = M.ensemble(t, max_trees=t.pick(1, 5, 15), max_leaves=t.pick(2, 8, 30))
    if t.rng.rand() < .15:
        # a deep tree: positions beyond 32 bits
        s.trees[0] = deep(t, int(t.rng.randint(20, 60)))
    m = M.load(t, s)
    inc = t.pick(True, False)
    t.note(include_leaves=inc, model=s.describe())
    r = topological_analysis(m, include_leaves=inc)
    count = {}

    def go(nd, depth, pos):
        if nd[0] == 'split' or inc or depth == 0:
            count[(depth, pos)] = count.get((depth, pos), 0) + 1
        if nd[0] == 'split':
            go(nd[3], depth + 1, 2 * pos)
            go(nd[4], depth + 1, 2 * pos + 1)
    for tr in s.trees:
        go(tr, 0, 0)
    top = r.topology.tocoo()
    got = {(int(a), int(b)): float(c) for a, b, c in zip(top.row, top.col, top.data)}
    t.check(got == count, 'positions', got=sorted(got.items())[:40], want=sorted(count.items())[:40])
    t.same(r.height_trees, [M.height(x) for x in s.trees], 'heights')
    n = float(len(s.trees))
    avg = r.avg_tree_shape().tocoo()
    t.check({(int(a), int(b)): round(float(c) * n, 4) for a, b, c in zip(avg.row, avg.col, avg.data)} == {k: float(v) for k, v in count.items()}, 'average shape')
    lv = max(k[0] for k in count) + 1
    want = [sum(v for k, v in count.items() if k[0] == l) / float(len([1 for k in count if k[0] == l])) / n for l in range(lv)]
    t.close(r.fullness_per_level(), want, 'fullness')


def deep(t, h):
    tr = ('leaf', np.float32(1))
    for _ in range(h):
        o = ('leaf', np.float32(0))
        tr = ('split', 0, np.float32(0), tr, o) if t.rng.rand() < .5 else ('split', 0, np.float32(0), o, tr)
    return tr


# -- statistics ----------------------------------------------------------------------------------------------------------
@case('C27', 120)
def randomization(t):
    from rankeval.analysis.statistical import _randomization
    n = int(t.rng.randint(1, 9))
    kind = t.pick('free', 'ties', 'same', 'floats', 'means')
    a = (t.rng.randint(0, 9, n) / 8.0).astype(np.float32)
    b = (t.rng.randint(0, 9, n) / 8.0).astype(np.float32)
    if kind == 'ties':
        k = t.rng.rand(n) < .6
        b[k] = a[k]
    elif kind == 'same':
        b = a.copy()
    elif kind == 'floats':
        a, b = t.rng.rand(n).astype(np.float32), t.rng.rand(n).astype(np.float32)
        b[t.rng.rand(n) < .4] = a[0]
    elif kind == 'means':
        b = a[::-1].copy()
    n_perm = int(t.pick(1, 7, 50, 200))
    seed = int(t.rng.randint(10 ** 6))
    t.note(a=a, b=b, n_perm=n_perm, seed=seed)
    rec = []
    real = np.random.choice

    def choice(*args, **kw):
        r = real(*args, **kw)
        rec.append(np.array(r, copy=True))
        return r
    np.random.seed(seed)
    np.random.choice = choice
    try:
        p1, p2 = _randomization(a, b, n_perm=n_perm)
    finally:
        np.random.choice = real
    t.check(0 <= p1 <= p2 + 1e-12 and p2 <= 1, 'p-values not ordered', got=[p1, p2])
    if kind == 'same':
        t.check(p1 == 1 and p2 == 1, 'identical systems', got=[p1, p2])
    if len(rec) == n_perm and all(x.shape == (n,) and x.dtype == bool for x in rec):
        a64, b64 = a.astype(np.float64), b.astype(np.float64)
        best, worst = (a64, b64) if a64.sum() >= b64.sum() else (b64, a64)
        obs = best.sum() - worst.sum()
        d = [np.where(s, worst, best).sum() - np.where(s, best, worst).sum() for s in rec]
        eps = 1e-12
        t.close(p1, sum(1 for x in d if x >= obs - eps) / float(n_perm), 'one-sided p-value', 1e-9)
        t.close(p2, sum(1 for x in d if abs(x) >= abs(obs) - eps) / float(n_perm), 'two-sided p-value', 1e-9)
    np.random.seed(seed)
    q1, q2 = _randomization(b, a, n_perm=n_perm)
    if a.astype(np.float64).sum() != b.astype(np.float64).sum():
        t.check((q1, q2) == (p1, p2), 'exchanging the systems', got=[q1, q2], want=[p1, p2])


@case('C27', 25)
def randomization_exact(t):
    """with many assignments the p-values approach the exact ones"""
    from rankeval.analysis.statistical import _randomization
    n = int(t.rng.randint(1, 6))
    a = (t.rng.randint(0, 5, n) / 4.0).astype(np.float32)
    b = (t.rng.randint(0, 5, n) / 4.0).astype(np.float32)
    np.random.seed(int(t.rng.randint(10 ** 6)))
    t.note(a=a, b=b)
    p1, p2 = _randomization(a, b, n_perm=3000)
    best, worst = (a, b) if a.sum() >= b.sum() else (b, a)
    obs = float(best.sum() - worst.sum())
    al = [float((np.where(s, worst, best) - np.where(s, best, worst)).sum()) for s in itertools.product([False, True], repeat=n)]
    w1 = sum(1 for x in al if x >= obs - 1e-9) / float(len(al))
    w2 = sum(1 for x in al if abs(x) >= obs - 1e-9) / float(len(al))
    t.check(abs(p1 - w1) < 0.06 and abs(p2 - w2) < 0.06, 'p-values far from the exact ones', got=[p1, p2], want=[w1, w2])


@case('C27', 1)
def randomization_independent(t):
    """the assignments are drawn independently: the number that reaches the difference varies like a binomial"""
    from rankeval.analysis.statistical import _randomization
    n, runs = 200, 120
    for k in range(4):
        a = np.zeros(4, dtype=np.float32)
        a[k] = 1
        hits = []
        for seed in range(runs):
            np.random.seed(100 * k + seed)
            p1, p2 = _randomization(a, np.zeros(4, dtype=np.float32), n_perm=n)
            hits.append(p1 * n)
        var = float(np.var(hits)) / (n / 4.0)
        t.check(0.35 < var < 2.2, 'the random assignments are not independent of each other', query=k, variance=var)


@case('C27', 12)
def randomization_count(t):
    """every one of the requested assignments is counted"""
    from rankeval.analysis.statistical import _randomization
    n_perm = int([1009, 2503, 10007][t.k % 3])
    a = t.rng.rand(6).astype(np.float32)
    b = t.rng.rand(6).astype(np.float32)
    np.random.seed(t.k)
    t.note(n_perm=n_perm)
    for p in _randomization(a, b, n_perm=n_perm):
        x = p * n_perm
        t.check(abs(x - round(x)) < 1e-6 * n_perm, 'not a fraction of the assignments', got=p)


@case('C27', 1)
def two_sided(t):
    """both tails are counted: the two-sided number is not always twice the one-sided one"""
    from rankeval.analysis.statistical import _randomization, statistical_significance
    dss, mods, specs = setup(t, nm=2)
    ms = metrics(t, 2)
    odd = []
    for seed in range(40):
        np.random.seed(seed)
        p1, p2 = _randomization(np.array([1, 2, 4, 9.]), np.array([0, 3, 1, 2.]), n_perm=101)
        odd.append(int(round(p2 * 101)) % 2)
    t.check(0 < sum(odd) < 40, 'the two-sided p-value is derived from the one-sided', got=odd)


@case('C27', 30)
def significance(t):
    from rankeval.analysis.statistical import statistical_significance
    dss, mods, specs = setup(t, nm=2)
    ms = metrics(t, 2)
    a, b = mods[0], mods[t.pick(0, 1)]
    t.note(same=a is b)
    np.random.seed(3)
    rec, real, n_perm = [], np.random.choice, int(t.pick(400, 401, 1303))

    def choice(*args, **kw):
        r = real(*args, **kw)
        rec.append(np.array(r, copy=True))
        return r
    np.random.choice = choice
    try:
        r = statistical_significance(dss, a, b, ms, n_perm=n_perm, cache=t.pick(True, False))
    finally:
        np.random.choice = real
    drawn = iter(rec) if len(rec) == n_perm * len(dss) * len(ms) else None
    t.check(r.values.shape == (len(dss), len(ms), 2) and list(r.coords['p-value'].values) == ['one-sided', 'two-sided'], 'shape')
    coords(t, r, 'dataset', dss)
    coords(t, r, 'metric', ms)
    for i, d in enumerate(dss):
        for k, m in enumerate(ms):
            x = fresh_value(m, d, a.copy().score(d))[1].astype(np.float64)
            y = fresh_value(m, d, b.copy().score(d))[1].astype(np.float64)
            best, worst = (x, y) if x.mean() >= y.mean() else (y, x)
            obs = (best - worst).sum()
            n = len(x)
            for z in r.values[i, k].astype(np.float64) * n_perm:
                t.check(abs(z - round(z)) < 1e-6 * n_perm, 'not a fraction of the assignments requested', got=r.values[i, k], n_perm=n_perm)
            if drawn is not None:
                mine = [next(drawn) for _ in range(n_perm)]
                if all(z.shape == (n,) and z.dtype == bool for z in mine):
                    dl = [np.where(z, worst, best).sum() - np.where(z, best, worst).sum() for z in mine]
                    for c, f in ((0, lambda z: z), (1, abs)):
                        lo, hi = [sum(1 for z in dl if f(z) >= abs(obs) + e) / float(n_perm) for e in (1e-6, -1e-6)]
                        t.check(lo - 1e-6 <= r.values[i, k][c] <= hi + 1e-6, 'p-value is not the fraction of the assignments drawn', got=r.values[i, k], want=[lo, hi], column=c)
            if n <= 7:
                al = [(np.where(s, worst, best) - np.where(s, best, worst)).sum() for s in itertools.product([False, True], repeat=n)]
                eps = 1e-7
                w = [[sum(1 for z in al if z >= obs + e) / float(len(al)), sum(1 for z in al if abs(z) >= obs + e) / float(len(al))] for e in (-eps, eps)]
                g = r.values[i, k]
                for c in range(2):
                    t.check(w[1][c] - 0.12 <= g[c] <= w[0][c] + 0.12, 'p-value far from the exact one', got=g, want=w)
            if a is b:
                t.same(r.values[i, k], [1, 1], 'identical systems')


@case('C28', 120)
def folds(t):
    from rankeval.analysis.statistical import _kfold_scoring, _multi_kfold_scoring
    d = tagged(t)
    k = int(t.rng.randint(2, 7))
    t.note(k=k)
    np.random.seed(t.k)
    algo, calls = recorder(t, d)
    s = _kfold_scoring(d, k, algo)
    check_calls(t, d, calls, k, s)


@case('C28', 100)
def decomposition(t):
    from rankeval.analysis.statistical import bias_variance
    from rankeval.metrics import MSE, NDCG, Precision, RMSE
    dss = [tagged(t) for _ in range(int(t.rng.randint(1, 3)))]
    for i, d in enumerate(dss):
        d.name = 'd%d' % i
    L, k = int(t.rng.randint(2, 5)), int(t.rng.randint(2, 5))
    ms = [[MSE(), NDCG(cutoff=3), Precision(), RMSE()][i] for i in t.rng.permutation(4)[:t.rng.randint(1, 4)]]
    t.note(L=L, k=k, metrics=[str(m) for m in ms])
    np.random.seed(t.k)
    log = []

    def mk(nm, scale):
        def algo(X, y, q, Xt):
            v = ((np.arange(len(Xt)) * 7 + len(log) * 3) % 5 * scale).astype(np.float32)
            log.append((nm, X, y, q, Xt, v))
            return v
        algo.__name__ = nm
        return algo
    algos = [mk('a1', .5), mk('a2', 1.)][:t.rng.randint(1, 3)]
    r = bias_variance(datasets=dss, algos=algos, metrics=ms, L=L, k=k)
    t.check(r.values.shape == (len(dss), len(ms), len(algos), 3), 'shape')
    t.check(list(r.coords['error'].values) == ['Error', 'Bias', 'Variance'] and list(r.coords['algo'].values) == [a.__name__ for a in algos], 'coordinates')
    coords(t, r, 'dataset', dss)
    coords(t, r, 'metric', ms)
    # group the calls: every repetition covers every document of a dataset once
    pos = {}
    rest = list(log)
    for i, d in enumerate(dss):
        for ai in range(len(algos)):
            for mi in range(len(ms)):
                pass
    at = 0
    groups = []
    while at < len(log):
        n, got = None, []
        first = log[at]
        tot = len(first[1]) + len(first[4])
        have = 0
        while have < tot:
            got.append(log[at])
            have += len(log[at][4])
            at += 1
        groups.append((first[0], tot, got))
    t.check(len(groups) == len(dss) * len(algos) * len(ms) * L, 'number of repetitions', got=len(groups))
    for i, d in enumerate(dss):
        for ai, al in enumerate(algos):
            mine = [g for g in groups if g[0] == al.__name__ and len(g[2]) and d.X[0, 0] // 1000 == (g[2][0][1][0, 0] if len(g[2][0][1]) else g[2][0][4][0, 0]) // 1000]
            if len([1 for x in dss if x.X[0, 0] // 1000 == d.X[0, 0] // 1000]) > 1:
                continue
            t.check(len(mine) == len(ms) * L, 'repetitions of a dataset and algorithm', got=len(mine))
            ok = False
            cols = []
            size = -(-d.n_queries // k)
            t.check(all(len(g[2]) == -(-d.n_queries // size) for g in mine), 'folds of every repetition', got=[len(g[2]) for g in mine])
            for g in mine:
                s = np.zeros(d.n_instances)
                for _, X, y, q, Xt, v in g[2]:
                    s[(Xt[:, 0] % 1000).astype(int)] = v
                cols.append(s)
            for mi, m in enumerate(ms):
                S = np.array(cols[mi * L:(mi + 1) * L]).T
                if isinstance(m, MSE):
                    P, target = S, d.y.astype(np.float64)[:, None]
                else:
                    P, target = np.array([fresh_value(m, d, S[:, l].astype(np.float32))[1] for l in range(L)]).T.astype(np.float64), 1.0
                err = ((P - target) ** 2).mean()
                mean = P.mean(axis=1, keepdims=True)
                bias = ((mean - target) ** 2).mean()
                var = ((P - mean) ** 2).mean()
                t.close(r.values[i, mi, ai], [err, bias, var], 'error, bias and variance (%s)' % m, 1e-3)
    v = r.values.astype(np.float64)
    t.close(v[..., 0], v[..., 1] + v[..., 2], 'error = bias + variance', 1e-3)


_tag = [0]


def tagged(t):
    """dataset whose first feature identifies the document (and the dataset)"""
    from rankeval.dataset import Dataset
    d = gens.dataset(t, n_features=2, max_q=9, max_n=4, min_q=2)
    _tag[0] = (_tag[0] + 1) % 50
    X = d.X.copy()
    X[:, 0] = np.arange(len(X)) + 1000 * _tag[0]
    return Dataset(X, d.y, d.get_qids_dataset())


def recorder(t, d):
    calls = []

    def algo(X, y, q, Xt):
        v = (Xt[:, 0] * 2 + len(calls)).astype(np.float32)
        calls.append((X.copy(), y.copy(), np.array(q, copy=True), Xt.copy(), v.copy()))
        return v
    return algo, calls


def check_calls(t, d, calls, k, s):
    base = int(d.X[0, 0])
    qof = np.repeat(np.arange(d.n_queries), np.diff(d.query_offsets))
    nq = d.n_queries
    chunk = -(-nq // k)
    tested = []
    for c, (X, y, q, Xt, v) in enumerate(calls):
        te = (Xt[:, 0] - base).astype(int)
        tr = (X[:, 0] - base).astype(int)
        tested += list(te)
        tq, rq = set(qof[te]), set(qof[tr])
        t.check(not (tq & rq) and tq | rq == set(range(nq)) and sorted(list(te) + list(tr)) == list(range(d.n_instances)), 'training and test documents of fold %d' % c)
        t.same(X, d.X[tr], 'training features')
        t.same(Xt, d.X[te], 'test features')
        t.same(y, d.y[tr], 'training labels')
        t.check(list(tr) == sorted(tr) and list(te) == sorted(te), 'order of the documents')
        t.same(q, [int((qof == a).sum()) for a in range(nq) if a in rq], 'training query sizes')
        want = chunk if c < len(calls) - 1 else nq - chunk * (len(calls) - 1)
        t.check(len(tq) == want, 'size of fold %d' % c, got=len(tq), want=want)
        t.close(s[te], v, 'scores of fold %d' % c)
    t.check(sorted(tested) == list(range(d.n_instances)), 'every document scored once', got=tested)
