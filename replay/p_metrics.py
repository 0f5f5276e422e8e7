import itertools, math
import numpy as np
from lib import case, Mismatch
import gens
from rankeval import metrics as M
from rankeval.metrics import Precision, Recall, MRR, MAP, DCG, NDCG, ERR, Pfound, RBP, MSE, RMSE, Kendalltau, SpearmanRho
from rankeval.metrics.precision_max import PrecisionMax


# -- definitions (written from the property statements) ------------------------------------------------------------------
def order(yp):
    return sorted(range(len(yp)), key=lambda i: -float(yp[i]))


def cut(o, c):
    return o if c is None else o[:c]


def d_precision(y, o, c, th):
    r = cut(o, c)
    return sum(y[i] >= th for i in r) / float(len(r))


def d_recall(y, o, c, th, nrr):
    tot = sum(v >= th for v in y)
    return nrr if tot == 0 else sum(y[i] >= th for i in cut(o, c)) / float(tot)


def d_mrr(y, o, c, th):
    for k, i in enumerate(cut(o, c)):
        if y[i] >= th:
            return 1.0 / (k + 1)
    return 0.0


def d_map(y, o, c, nrr):
    tot = sum(v > 0 for v in y)
    if tot == 0:
        return nrr
    r = cut(o, c)
    s = sum(sum(y[q] > 0 for q in r[:k + 1]) / float(k + 1) for k, i in enumerate(r) if y[i] > 0)
    return s / min(len(r), tot)


def d_dcg(y, o, c, impl):
    return sum((float(y[i]) if impl == 'flat' else 2.0 ** float(y[i]) - 1) / math.log(k + 2, 2) for k, i in enumerate(cut(o, c)))


def d_ndcg(y, o, c, impl, nrr):
    ideal = d_dcg(y, sorted(range(len(y)), key=lambda i: -float(y[i])), c, impl)
    return nrr if ideal == 0 else d_dcg(y, o, c, impl) / ideal


def stops(y, r):
    m = max(float(v) for v in y)
    out, go = [], 1.0
    for i in r:
        u = (2.0 ** float(y[i]) - 1) / 2.0 ** m
        out.append(go * u)
        go *= 1 - u
    return out


def d_err(y, o, c):
    return sum(s / (k + 1) for k, s in enumerate(stops(y, cut(o, c))))


def d_pfound(y, o, c, p):
    return sum(s * p ** k for k, s in enumerate(stops(y, cut(o, c))))


def d_rbp(y, o, c, th, p):
    return (1 - p) * sum(p ** k for k, i in enumerate(cut(o, c)) if y[i] >= th)


def d_se(y, yp, o, c):
    r = range(len(y)) if c is None else cut(o, c)
    return sum((float(y[i]) - float(yp[i])) ** 2 for i in r)


def d_kendall(y, yp):
    n = len(y)
    con = dis = tx = ty = 0
    for i in range(n):
        for j in range(i):
            a, b = np.sign(float(y[i]) - float(y[j])), np.sign(float(yp[i]) - float(yp[j]))
            if a == 0 and b == 0:
                pass
            if a == 0:
                tx += 1
            if b == 0:
                ty += 1
            if a * b > 0:
                con += 1
            elif a * b < 0:
                dis += 1
    tot = n * (n - 1) // 2
    den = math.sqrt((tot - tx) * (tot - ty))
    return float('nan') if den == 0 else (con - dis) / den


def d_spearman(y, yp):
    def rank(v):
        return np.array([sum(float(w) < float(x) for w in v) + (sum(float(w) == float(x) for w in v) + 1) / 2.0 for x in v])
    a, b = rank(y), rank(yp)
    a, b = a - a.mean(), b - b.mean()
    den = math.sqrt((a * a).sum() * (b * b).sum())
    return float('nan') if den == 0 else float((a * b).sum() / den)


def metric_and_def(t, family, n, nonneg=False):
    """(metric object, definition on (y, order, yp), description)"""
    c = gens.cutoff(t, n)
    th = t.pick(1, 1, 2, 0, 3, 0.5)
    nrr = t.pick(0.0, 1.0, 0.5, -1.0) if not nonneg else t.pick(0.0, 1.0, 0.25)
    p = t.pick(0.5, 0.8, 0.15, 0.0, 1.0, 0.95)
    impl = t.pick('flat', 'exp')
    t.note(metric=family, cutoff=c, threshold=th, no_relevant_results=nrr, p=p, implementation=impl)
    return {
        'P': lambda: (Precision(cutoff=c, threshold=th), lambda y, o, yp: d_precision(y, o, c, th)),
        'PMax': lambda: (PrecisionMax(cutoff=c), lambda y, o, yp: d_precision(y, o, c, max(y))),
        'R': lambda: (Recall(cutoff=c, threshold=th, no_relevant_results=nrr), lambda y, o, yp: d_recall(y, o, c, th, nrr)),
        'MRR': lambda: (MRR(cutoff=c, threshold=th), lambda y, o, yp: d_mrr(y, o, c, th)),
        'MAP': lambda: (MAP(cutoff=c, no_relevant_results=nrr), lambda y, o, yp: d_map(y, o, c, nrr)),
        'DCG': lambda: (DCG(cutoff=c, implementation=impl), lambda y, o, yp: d_dcg(y, o, c, impl)),
        'NDCG': lambda: (NDCG(cutoff=c, implementation=impl, no_relevant_results=nrr), lambda y, o, yp: d_ndcg(y, o, c, impl, nrr)),
        'ERR': lambda: (ERR(cutoff=c), lambda y, o, yp: d_err(y, o, c)),
        'Pf': lambda: (Pfound(cutoff=c, p_abandonment=p), lambda y, o, yp: d_pfound(y, o, c, p)),
        'RBP': lambda: (RBP(cutoff=c, threshold=th, p=p), lambda y, o, yp: d_rbp(y, o, c, th, p)),
        'MSE': lambda: (MSE(cutoff=c), lambda y, o, yp: d_se(y, yp, o, c)),
        'RMSE': lambda: (RMSE(cutoff=c), lambda y, o, yp: math.sqrt(d_se(y, yp, o, c))),
        'K': lambda: (Kendalltau(), lambda y, o, yp: d_kendall(y, yp)),
        'Rho': lambda: (SpearmanRho(), lambda y, o, yp: d_spearman(y, yp)),
    }[family]()


SET, DCGS, CASC, ERRS, CORR = ['P', 'PMax', 'R', 'MRR', 'MAP'], ['DCG', 'NDCG'], ['ERR', 'Pf', 'RBP'], ['MSE', 'RMSE'], ['K', 'Rho']
ALL = SET + DCGS + CASC + ERRS + CORR
FAMS = {'C13': SET, 'C14': DCGS, 'C15': CASC, 'C16': ERRS, 'C17': CORR}


def one_query(families):
    def f(t):
        fam = families[t.k % len(families)]
        n = gens.size(t, 25 if t.k % 7 == 0 else 10)
        y = gens.labels(t, n)
        yp = gens.scores(t, n, y) if fam not in CORR else \
            t.pick(gens.scores(t, n, None, 'distinct'), (t.rng.randint(0, 4, n) / 2.0).astype(np.float32))
        if fam in ERRS:
            yp = (yp / 8).astype(np.float32)
        m, d = metric_and_def(t, fam, n)
        t.note(y=y, y_pred=yp)
        y0, yp0 = y.copy(), yp.copy()
        got = m.eval_per_query(y, yp)
        t.close(got, d(y0, order(yp0), yp0), '%s of one query differs from its definition' % fam)
        t.same(y, y0, 'labels modified')
        t.same(yp, yp0, 'scores modified')
        t.nontrivial = n > 1
        # the same object again, on other data, and once more on the first
        n2 = gens.size(t)
        y2 = gens.labels(t, n2)
        yp2 = (gens.scores(t, n2, y2) / 8).astype(np.float32)
        t.note(y2=y2, y_pred2=yp2)
        t.close(m.eval_per_query(y2, yp2), d(y2, order(yp2), yp2), '%s of a second query differs from its definition' % fam)
        t.close(m.eval_per_query(y, yp), d(y0, order(yp0), yp0), '%s of the first query evaluated again differs' % fam)
    return f


def dataset_values(families):
    def f(t):
        fam = families[t.k % len(families)]
        ds = gens.dataset(t, lab=t.pick(None, 'graded', 'binary'))
        m, d = metric_and_def(t, fam, 7)
        yp = np.concatenate([gens.scores(t, e - s, ds.y[s:e]) for _, s, e in ds.query_iterator()]).astype(np.float32)
        if fam in ERRS:
            yp = (yp / 8).astype(np.float32)
        t.note(y_pred=yp)
        check_eval(t, fam, m, d, ds, yp)
        t.nontrivial = ds.n_queries > 1
    return f


def check_eval(t, fam, m, d, ds, yp, what=''):
    y0, yp0, off = ds.y.copy(), yp.copy(), [(s, e) for _, s, e in ds.query_iterator()]
    mean, det = m.eval(ds, yp)
    det0 = np.array(det, dtype=float)
    want = []
    for s, e in off:
        v = d(y0[s:e], order(yp0[s:e]), yp0[s:e])
        want.append(v / ds.n_instances if fam == 'MSE' else v)
    t.check(len(det) == len(want), 'one value per query' + what, got=len(det), want=len(want))
    t.close(det0, want, '%s: detailed scores of the dataset%s' % (fam, what), tol=5e-5)
    ok = [v for v in want if v == v]
    tot = (sum(want) if fam == 'MSE' else (sum(ok) / len(ok) if ok else float('nan')))
    t.close(mean, tot, '%s: overall value of the dataset%s' % (fam, what), tol=5e-5)
    t.same(ds.y, y0, 'labels modified')
    t.same(yp, yp0, 'scores modified')
    return det, det0


for _p, _f in FAMS.items():
    g = one_query(_f)
    g.__name__ = 'one_query'
    case(_p, 140 * len(_f), limit=30)(g)
    h = dataset_values(_f)
    h.__name__ = 'whole_dataset'
    case(_p, 25 * len(_f), limit=30)(h)


@case('C13', 600)
def ties_some_ranking(t):
    """with arbitrary ties the value is that of some ranking by decreasing score"""
    n = int(t.rng.randint(2, 6))
    y = gens.labels(t, n, 'graded')
    yp = t.rng.randint(0, 3, n).astype(np.float32)
    fam = SET[t.k % len(SET)]
    m, d = metric_and_def(t, fam, n)
    t.note(y=y, y_pred=yp)
    got = m.eval_per_query(y, yp)
    vals = [d(y, list(o), yp) for o in itertools.permutations(range(n)) if all(yp[o[i]] >= yp[o[i + 1]] for i in range(n - 1))]
    t.check(any(abs(got - v) < 1e-5 for v in vals), '%s is not the value of any ranking by decreasing score' % fam, got=got, want=sorted(set(vals)))


@case('C14', 600)
def ties_some_ranking_dcg(t):
    n = int(t.rng.randint(2, 6))
    y = gens.labels(t, n, 'graded')
    yp = t.rng.randint(0, 3, n).astype(np.float32)
    fam = DCGS[t.k % 2]
    m, d = metric_and_def(t, fam, n)
    t.note(y=y, y_pred=yp)
    got = m.eval_per_query(y, yp)
    vals = [d(y, list(o), yp) for o in itertools.permutations(range(n)) if all(yp[o[i]] >= yp[o[i + 1]] for i in range(n - 1))]
    t.check(any(abs(got - v) < 1e-5 for v in vals), '%s is not the value of any ranking by decreasing score' % fam, got=got, want=sorted(set(vals)))


@case('C14', 240)
def ndcg_dataset_equals_queries(t):
    ds = gens.dataset(t)
    ds2 = gens.dataset(t)
    c, impl, nrr = gens.cutoff(t, 5), t.pick('flat', 'exp'), t.pick(1.0, 0.0)
    m = NDCG(cutoff=c, implementation=impl, no_relevant_results=nrr)
    t.note(cutoff=c, implementation=impl)
    d = lambda y, o, yp: d_ndcg(y, o, c, impl, nrr)
    for rep in range(4):
        x = t.pick(ds, ds2)
        yp = np.concatenate([gens.scores(t, e - s, x.y[s:e]) for _, s, e in x.query_iterator()])
        check_eval(t, 'NDCG', m, d, x, yp, ' (evaluation %d)' % rep)
        # a query evaluated alone in between
        s, e = [(s, e) for _, s, e in x.query_iterator()][0]
        t.close(m.eval_per_query(x.y[s:e], yp[s:e]), d(x.y[s:e], order(yp[s:e]), yp[s:e]), 'NDCG of a query alone after eval')


@case('C18', 960)
def history(t):
    """sequences of evaluations with the same metric object on several datasets"""
    fam = ALL[t.k % len(ALL)]
    dss = [gens.dataset(t) for _ in range(2)]
    m, d = metric_and_def(t, fam, 6)
    kept = []
    for rep in range(5):
        ds = dss[t.rng.randint(2)]
        if fam in CORR:
            yp = (t.rng.randint(-4, 5, ds.n_instances) / 4.0).astype(np.float32)
        else:
            yp = np.concatenate([gens.scores(t, e - s, ds.y[s:e]) for _, s, e in ds.query_iterator()])
            if fam in ERRS:
                yp = (yp / 16).astype(np.float32)
        t.note(**{'y_pred%d' % rep: yp})
        det, det0 = check_eval(t, fam, m, d, ds, yp, ' (evaluation %d)' % rep)
        for a, b in kept:
            t.same(a, b, 'detailed scores returned earlier changed')
        kept.append((det, det0))
        if t.rng.rand() < 0.3:
            q = gens.size(t, 6)
            y1 = gens.labels(t, q)
            yp1 = (gens.scores(t, q, y1) / 16).astype(np.float32)
            t.close(m.eval_per_query(y1, yp1), d(y1, order(yp1), yp1), '%s of a query between evaluations' % fam)


@case('C18', 240)
def equal_content_datasets(t):
    """datasets with equal features but different labels or query boundaries must not share cached values"""
    from rankeval.dataset import Dataset
    n = int(t.rng.randint(3, 8))
    X = (t.rng.randint(-3, 4, (n, 3)) / 2.0).astype(np.float32)
    m, d = metric_and_def(t, 'NDCG', n)
    for rep in range(4):
        y = gens.labels(t, n, t.pick('graded', 'binary'))
        k = int(t.rng.randint(1, n))
        qid = np.array([5] * k + [2] * (n - k), dtype=np.int32)
        ds = Dataset(X, y, qid)
        yp = np.concatenate([gens.scores(t, e - s, ds.y[s:e], 'distinct') for _, s, e in ds.query_iterator()])
        t.note(**{'y%d' % rep: y, 'qid%d' % rep: qid, 'y_pred%d' % rep: yp})
        check_eval(t, 'NDCG', m, d, ds, yp, ' (dataset %d)' % rep)


@case('C19', 1600)
def bounds(t):
    fam = (SET + ['NDCG'] + CASC)[t.k % 9]
    n = gens.size(t, 15)
    y = gens.labels(t, n)
    m, d = metric_and_def(t, fam, n, nonneg=True)
    yp = t.rng.randint(0, n + 1, n).astype(np.float32) if t.rng.rand() < .5 else gens.scores(t, n, y)
    t.note(y=y, y_pred=yp)
    v = float(m.eval_per_query(y, yp))
    t.check(-1e-6 <= v <= 1 + 1e-6, '%s outside [0, 1]' % fam, got=v)


@case('C19', 200)
def bounds_dataset(t):
    """the same bounds when the metric is evaluated on datasets, one after the other"""
    fam = (SET + ['NDCG', 'NDCG', 'NDCG'] + CASC)[t.k % 11]
    dss = [gens.dataset(t) for _ in range(2)]
    m, d = metric_and_def(t, fam, 6, nonneg=True)
    for rep in range(3):
        ds = dss[t.rng.randint(2)]
        yp = t.rng.randint(0, 6, ds.n_instances).astype(np.float32) if rep != 1 else ds.y.copy()
        t.note(**{'y_pred%d' % rep: yp})
        v, dv = m.eval(ds, yp)
        t.check(np.all((dv >= -1e-6) & (dv <= 1 + 1e-5)) and -1e-6 <= v <= 1 + 1e-5, '%s outside [0, 1] on a dataset' % fam, got=dv)
        if fam == 'NDCG' and rep == 1:
            ok = [bool((ds.y[s:e] > 0).any()) for _, s, e in ds.query_iterator()]
            t.close(dv[ok], np.ones(sum(ok)), 'NDCG of ideal rankings on a dataset')


@case('C19', 600)
def ideal_ndcg(t):
    n = gens.size(t, 12)
    y = gens.labels(t, n)
    if not (y > 0).any():
        y[t.rng.randint(n)] = 2
    c, impl = gens.cutoff(t, n), t.pick('flat', 'exp')
    m = NDCG(cutoff=c, implementation=impl, no_relevant_results=0.0)
    t.note(y=y, cutoff=c, implementation=impl)
    # ranking by decreasing label: scores strictly decreasing along a label ordering
    o = sorted(range(n), key=lambda i: (-y[i], t.rng.rand()))
    yp = np.empty(n, dtype=np.float32)
    yp[o] = np.arange(n, 0, -1)
    t.close(m.eval_per_query(y, yp), 1.0, 'NDCG of an ideal ranking')
    t.close(m.eval_per_query(y, y.copy()), 1.0, 'NDCG of the labels as scores')
