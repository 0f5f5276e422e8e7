"""C20-C24: effectiveness analyses.

The lists of datasets, models and metrics have any length; their elements are known through the contracts of
Dataset.query_iterator (C06), RTEnsemble.score (C01, C02, C03) and Metric.eval (C18):
  score(d, m) is the array of the scores of model m on dataset d, score(d, m, detailed) adds the contributions of the trees,
  eval(metric, d, scores) is the overall value and the array of the values of the queries.
"""
from contracts.common import *
import vcg.npmodel as N

EF = 'rankeval.analysis.effectiveness.'

SCORE = opaque('SCORE', I, I, I, R)              # dataset, model, document
PART = opaque('PART', I, I, I, I, R)             # dataset, model, document, tree
EVAL = opaque('EVAL', I, I, AIR, I, R)           # metric, dataset, scores
EVALQ = opaque('EVALQ', I, I, AIR, I, I, R)      # metric, dataset, scores, query
NDOC = opaque('NDOC', I, I)
NQ = opaque('NQ', I, I)
NTREES = opaque('NTREES', I, I)
LABEL = opaque('LABEL', I, I, R)
OFF = opaque('OFF', I, I, I)
QID = opaque('QID', I, I, I)


ILAB = opaque('ILAB', I, I, I)


def world(v, label=lambda i, r: LABEL(i, r)):
    c = v.ctx
    D, M, K = v.int('n_datasets', 1), v.int('n_models', 1), v.int('n_metrics', 1)
    i, j, q = fresh('i'), fresh('j'), fresh('q')
    c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < D), z3.And(NDOC(i) >= 1, NQ(i) >= 1, OFF(i, z3.IntVal(0)) == 0, OFF(i, NQ(i)) == NDOC(i))), patterns=[NDOC(i)]))
    c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < D), z3.And(NDOC(i) >= 1, NQ(i) >= 1, OFF(i, z3.IntVal(0)) == 0, OFF(i, NQ(i)) == NDOC(i))), patterns=[NQ(i)]))
    c.assume(z3.ForAll([i, q], z3.Implies(z3.And(i >= 0, i < D, q >= 0, q < NQ(i)), OFF(i, q) < OFF(i, q + 1)), patterns=[OFF(i, q)]))
    c.assume(z3.ForAll([i, q, j], z3.Implies(z3.And(i >= 0, i < D, q >= 0, q < j, j <= NQ(i)), OFF(i, q) < OFF(i, j)), patterns=[z3.MultiPattern(OFF(i, q), OFF(i, j))]))
    c.assume(z3.ForAll([i, q], z3.Implies(z3.And(i >= 0, i < D, q >= 0, q <= NQ(i)), z3.And(OFF(i, q) >= 0, OFF(i, q) <= NDOC(i))), patterns=[OFF(i, q)]))
    c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < M), NTREES(i) >= 1), patterns=[NTREES(i)]))

    def dataset_(i):
        i = num(i)
        q_it = lambda ctx, o: Seq(NQ(i), lambda q: (QID(i, num(q)), OFF(i, num(q)), OFF(i, num(q) + 1)))
        return Abstract('dataset', dict(n_instances=NDOC(i), n_queries=NQ(i), y=N.mk(c, (NDOC(i),), lambda r: label(i, num(r)), 'float'),
                                        query_offsets=N.mk(c, (NQ(i) + 1,), lambda r: OFF(i, num(r)), 'int')),
                        dict(query_iterator=q_it), key=('dataset', i))

    def index(o, kind):
        if not isinstance(o, Abstract) or not o.key or o.key[0] != kind:
            raise Unsupported('a %s is expected' % kind)
        return o.key[1]

    def model_(j):
        j = num(j)

        def score(ctx, o, dataset, detailed=False, cache=False):
            d = dataset
            i = index(d, 'dataset')
            y = N.mk(c, (NDOC(i),), lambda r: SCORE(i, j, num(r)), 'float')
            if not ctx.truth(detailed):
                return y
            p = N.mk(c, (NDOC(i), NTREES(j)), lambda r, t: PART(i, j, num(r), num(t)), 'float')
            l = N.mk(c, (NDOC(i), NTREES(j)), lambda r, t: opaque('LEAF', I, I, I, I, I)(i, j, num(r), num(t)), 'int')
            return (y, p, l)
        return Abstract('model', dict(n_trees=NTREES(j)), dict(score=score), key=('model', j))

    def metric_(k):
        k = num(k)

        def ev(ctx, o, dataset, y_pred):
            d, y = dataset, y_pred
            i = index(d, 'dataset')
            y = N.to_arr(ctx, y)
            ctx.oblige('Metric.eval: one score per document', num(y.shape[0]) == NDOC(i))
            rd = y.frozen()
            l = lam(lambda r: real(rd(r)))
            return (EVAL(k, i, l, NDOC(i)), N.mk(c, (NQ(i),), lambda q: EVALQ(k, i, l, NDOC(i), num(q)), 'float'))
        return Abstract('metric', {}, dict(eval=ev), key=('metric', k))
    ds, ms, ks = Seq(D, dataset_), Seq(M, model_), Seq(K, metric_)
    v.ctx.overrides['xarray.DataArray'] = lambda ctx, args, kw: Abstract('DataArray', dict(zip(('data', 'coords', 'dims', 'name'), args), **kw))
    return ds, ms, ks, D, M, K


def table(v, p, sizes, coords, dims):
    """the result is a DataArray with these coordinates and dimensions -> its data, or None"""
    r = p.val
    if not isinstance(r, Abstract) or r.name != 'DataArray':
        v.fail('a labelled table is returned', str(r))
        return None
    a = r.attrs
    got = a['dims'].items if isinstance(a['dims'], PyList) else list(a['dims'])
    v.check('dimensions', z3.BoolVal(list(got) == dims), [])
    cs = a['coords'].items if isinstance(a['coords'], PyList) else list(a['coords'])
    if len(cs) != len(coords):
        v.fail('coordinates', str(len(cs)))
        return None
    for d, x, w in zip(dims, cs, coords):
        if isinstance(w, Seq):
            m, el = v.in_state(p, lambda: v.ctx.seq(x))
            i = fresh('i')
            v.check('coordinate %s: length' % d, num(m) == num(w.n), p.hyps)
            o = v.in_state(p, lambda: el(i))
            if not isinstance(o, Abstract) or o.key is None or o.key[0] != w.elem(i).key[0]:
                v.fail('coordinate %s' % d, 'not the given objects')
            else:
                v.check('coordinate %s: the given objects, in order' % d, z3.Implies(z3.And(i >= 0, i < num(w.n)), o.key[1] == i), p.hyps)
        elif w is not None:
            w(x)
    data = a['data']
    if not isinstance(data, Arr) or data.ndim != len(sizes):
        v.fail('shape of the table', str(data))
        return None
    for k, s in enumerate(sizes):
        if s is not None:
            v.check('size of dimension %s' % dims[k], num(data.shape[k]) == num(s), p.hyps)
    return data


def lscore(i, j):
    return lam(lambda r: SCORE(i, j, r))


@unit('C20', 'effectiveness.model_performance')
def performance(v):
    ds, ms, ks, D, M, K = world(v)
    cache = z3.Bool('cache')
    paths = v.run(lambda: v.ctx.call(v.func(EF + 'model_performance'), [ds, ms, ks], dict(cache=cache)))
    i, j, k = fresh('i'), fresh('j'), fresh('k')
    for p in paths:
        if not no_raise(v, p):
            continue
        t = table(v, p, (D, M, K), (ds, ms, ks), ['dataset', 'model', 'metric'])
        if t is not None:
            x = v.in_state(p, lambda: t.get(i, j, k))
            v.check('cell (dataset, model, metric) holds the overall metric of the scores of the model on the dataset',
                    z3.Implies(z3.And(i >= 0, i < D, j >= 0, j < M, k >= 0, k < K), real(x) == EVAL(k, i, lscore(i, j), NDOC(i))), p.hyps)




# -- C21 ---------------------------------------------------------------------------------------------------------------------
def largest(v, p, size, M, name):
    """size is the largest number of trees"""
    m = fresh('m')
    v.check('%s: no model has more trees' % name, z3.Implies(z3.And(m >= 0, m < M), NTREES(m) <= size), p.hyps)
    v.check('%s: some model has that many' % name, EXISTS(lam(lambda m: NTREES(m) == size), M), p.hyps)


@unit('C21', 'effectiveness.tree_wise_average_contribution')
def contribution(v):
    ds, ms, ks, D, M, K = world(v)
    cache = z3.Bool('cache')
    paths = v.run(lambda: v.ctx.call(v.func(EF + 'tree_wise_average_contribution'), [ds, ms], dict(cache=cache)))
    i, j, t_ = fresh('i'), fresh('j'), fresh('t')
    for p in paths:
        if not no_raise(v, p):
            continue
        t = table(v, p, (D, M, None), (ds, ms, None), ['dataset', 'model', 'trees'])
        if t is None:
            continue
        T = num(t.shape[2])
        largest(v, p, T, M, 'size of the table')
        cs = p.val.attrs['coords']
        m_, el = v.in_state(p, lambda: v.ctx.seq((cs.items if isinstance(cs, PyList) else list(cs))[2]))
        v.check('coordinate trees: 0, 1, ...', z3.And(num(m_) == T, z3.Implies(z3.And(t_ >= 0, t_ < T), num(v.in_state(p, lambda: el(t_))) == t_)), p.hyps)
        x = v.in_state(p, lambda: t.get(i, j, t_))
        zabs = lambda x: z3.If(x >= 0, x, -x)
        spec = z3.If(t_ < NTREES(j), mk_sum(lambda r: zabs(PART(i, j, r, t_)), NDOC(i)) / z3.ToReal(NDOC(i)), N.NAN)
        v.check('cell (dataset, model, tree): mean over the documents of the absolute contribution of the tree',
                z3.Implies(z3.And(i >= 0, i < D, j >= 0, j < M, t_ >= 0, t_ < T), real(x) == spec), p.hyps)


@unit('C21', 'effectiveness.tree_wise_performance', weight=2)
def prefixes(v):
    ds, ms, ks, D, M, K = world(v)
    step = v.int('step', 1)
    cache = z3.Bool('cache')
    paths = v.run(lambda: v.ctx.call(v.func(EF + 'tree_wise_performance'), [ds, ms, ks], dict(step=step, cache=cache)))
    i, j, e, k, r, u = [fresh(x) for x in ('i', 'j', 'e', 'k', 'r', 'u')]
    nj = NTREES(j)
    Q, LQ, se, sm = z3.Ints('steps_of_model steps step*e step*m')
    least = lambda a, b: z3.If(a <= b, a, b)
    f = lambda t: PART(i, j, r, t)
    for p in paths:
        if not no_raise(v, p):
            continue
        t = table(v, p, (D, M, None, K), (ds, ms, None, ks), ['dataset', 'model', 'k', 'metric'])
        if t is None:
            continue
        cs = p.val.attrs['coords']
        m_, el = v.in_state(p, lambda: v.ctx.seq((cs.items if isinstance(cs, PyList) else list(cs))[2]))
        T = z3.Int('size_of_the_largest_model')
        maxs = {x.get_id(): x for h in p.hyps + [z3.simplify(num(m_))] for x in reductions(h) if x.decl().name() == 'MAXI'}
        if len(maxs) > 1:
            raise Unsupported('several maxima')
        if not maxs:
            raise Unsupported('no maximum')
        mx = list(maxs.values())[0]
        w = fresh('w')
        v.check('the largest number of trees', z3.And(z3.Implies(z3.And(j >= 0, j < M), nj <= mx), EXISTS(lam(lambda m: NTREES(m) == mx), M)), p.hyps)
        base = [z3.substitute(h, (mx, T)) for h in p.hyps if not z3.is_quantifier(h)] + [T >= 1, T >= nj, nj >= 1]
        one = [M >= 1, T >= 1, step >= 1, nj >= 1, T >= nj]

        def sub(x):
            """the maximum is a constant of size at least one"""
            return prune(z3.substitute(z3.simplify(x), (z3.simplify(mx), T)), one)

        m = fresh('m')

        def plain(goal_name, goal, extra=()):
            """products with the step are abstracted: only the facts listed are used about them"""
            ab = [(z3.simplify(nj / step), Q), (z3.simplify(T / step), LQ)]
            sq, sl = z3.Ints('step*Q step*LQ')
            prod = lambda a, s: [(z3.simplify(step * a), s), (step * a, s), (a * step, s)]
            monomials = prod(e, se) + prod(m, sm) + prod(Q, sq) + prod(LQ, sl)

            def g(x):
                x = prune(z3.substitute(sub(x), *ab), list(facts) + list(extra), arms=True)
                return z3.substitute(z3.simplify(x, som=True), *monomials)
            facts = [sq <= nj, nj < sq + step, Q >= 0, sl <= T, T < sl + step, LQ >= 0, step >= 1, T >= nj, nj >= 1]
            pts = [(z3.IntVal(0), z3.IntVal(0)), (e, se), (m, sm), (Q, sq), (LQ, sl)]
            for x, sx in pts:
                for y, sy in pts:
                    if x is not y:
                        facts += [z3.Implies(x < y, sx + step <= sy), z3.Implies(x == y, sx == sy), z3.Implies(x + 1 == y, sx + step == sy), z3.Implies(x + 1 < y, sx + 2 * step <= sy)]
            v.check(goal_name, g(goal), p.hyps, plain=facts + [g(x) for x in base] + [g(x) for x in extra] + list(extra))
        v.check('products with the step', z3.And(z3.Implies(e < m, step * e + step <= step * m), z3.Implies(e == m, step * e == step * m), z3.Implies(e + 1 == m, step * e + step == step * m), z3.Implies(e + 1 < m, step * e + 2 * step <= step * m)), [], plain=[step >= 1])
        rng = [e >= 0, e < num(m_)]
        tick = least(step * e + step, T)
        plain('coordinate k: the multiples of the step and the full size', num(v.in_state(p, lambda: el(e))) == tick, rng)
        plain('coordinate k: up to the full size', z3.And(num(m_) == num(t.shape[2]), z3.Implies(e == num(m_) - 1, tick == T), z3.Implies(z3.And(e >= 0, tick == T, step * e < T), e == num(m_) - 1)), [e >= 0])
        x = sub(real(v.in_state(p, lambda: t.get(i, j, e, k))))
        inr = [i >= 0, i < D, j >= 0, j < M, k >= 0, k < K] + rng
        plain('undefined after the size of the model', z3.Implies(step * e >= nj, x == N.NAN), inr)
        evs = find_apps(x, 'EVAL')
        if not evs:
            raise Unsupported('form of the table')
        # the cases of the cell
        tag = [z3.Real('value!%d' % n) for n in range(len(evs))]
        xt = z3.substitute(x, *zip(evs, tag))
        case = [xt == w for w in tag]
        diff = [z3.Distinct(N.NAN, *tag)]
        plain('the metric is measured where the model still has trees', z3.Implies(step * e < nj, z3.Or(*case)), inr)
        for ev, cs_ in zip(evs, case):
            v.check('metric and dataset of the value', z3.And(ev.arg(0) == k, ev.arg(1) == i, ev.arg(3) == NDOC(i)), p.hyps)
            sc = z3.simplify(apply_lam(ev.arg(2), r))
            nested = [q for q in reductions(sc) if q.decl().name() == 'SUM' and apply_lam(q.arg(0), m).decl().name() == 'SUM']
            if len({q.arg(0).get_id() for q in nested}) != 1:
                raise Unsupported('form of the scores')
            lam_, at = nested[0].arg(0), None
            S = lambda n: SUM(lam_, n)
            add = z3.simplify(apply_lam(lam_, m))          # what the step m adds
            ln = add.arg(1)
            here = inr + diff + [cs_, step * e < nj, m >= 0, m <= e]
            b = least(step * m + step, nj) - step * m
            plain('number of trees added by a step', ln == b, here)
            g = lambda u: f(step * m + u)
            v.check('trees added by a step', z3.Implies(z3.And(u >= 0, u < ln), apply_lam(add.arg(0), u) == g(u)), p.hyps, plain=[])
            cc = concat_lemma(v, 'prefixes', f, step * m, [])
            zero = z3.IntVal(0)
            v.check('scores of the first trees (induction): first', S(zero) == mk_sum(f, zero), [], plain=[S(zero) == 0] + sum_def(f, zero))
            nxt = [step >= 1, nj >= 1, m >= 0, step * m >= 0, step * m < nj, S(m) == mk_sum(f, step * m), add == mk_sum(g, ln), ln == b, cc(b), z3.Implies(ln == b, mk_sum(g, ln) == mk_sum(g, b)),
                   same_length(f, step * m + b, least(step * m + step, nj))]
            v.check('scores of the first trees (induction): next', z3.And(S(m) + add == mk_sum(f, least(step * m + step, nj)),
                    z3.Implies(step * (m + 1) < nj, S(m + 1) == mk_sum(f, step * (m + 1)))), [],
                    plain=nxt + [S(m + 1) == S(m) + add, same_length(f, least(step * m + step, nj), step * (m + 1)), step * (m + 1) == step * m + step])
            add_e = z3.simplify(apply_lam(lam_, e))
            v.check('scores measured are those of the first trees', sc == mk_sum(f, least(step * e + step, nj)), [],
                    plain=[S(e + 1) == S(e) + add_e, S(e) + add_e == mk_sum(f, least(step * e + step, nj))])


# -- C24 ---------------------------------------------------------------------------------------------------------------------
@unit('C24', 'effectiveness.rank_confusion_matrix', weight=2)
def confusion(v):
    c = v.ctx
    ds, ms, ks, D, M, K = world(v, lambda i, r: z3.ToReal(ILAB(i, r)))
    skip, cache = z3.Bool('skip_same_label'), z3.Bool('cache')

    def where_(i, r):
        """position of the label of document r of dataset i among the distinct labels"""
        (n, start, part, pos, val, inside, of), (m, u, first, cls, N_, rd) = c.ghost['concatenations'][-1], c.ghost['unique_list'][-1]
        at = start(i) + r
        return cls(at), [inside(i, r), c.ghost['class'](at)]

    def integer(x):
        """the distinct labels are integers"""
        (n, start, part, pos, val, inside, of), (m, u, first, cls, N_, rd) = c.ghost['concatenations'][-1], c.ghost['unique_list'][-1]
        return z3.Implies(z3.And(x >= 0, x < m), u(x) == z3.ToReal(z3.ToInt(u(x)))), [c.ghost['member'](x), of(first(x))], u(x)

    def position(x):
        x = z3.simplify(x)
        a = find_apps(x, 'ILAB')
        if len(a) != 1 or not x.eq(a[0]) or not c.ghost.get('unique_list') or not c.ghost.get('concatenations'):
            return None
        P, fs = where_(a[0].arg(0), a[0].arg(1))
        k = fresh('k')
        f, _, pat = integer(k)
        c.assume(z3.ForAll([k], f, patterns=[pat]), *fs)         # proved below
        return P
    c.ghost['position'] = position
    paths = v.run(lambda: c.call(v.func(EF + 'rank_confusion_matrix'), [ds, ms], dict(skip_same_label=skip, cache=cache)))
    if len(c.ghost.get('unique_list', [])) != 1 or len(c.ghost.get('concatenations', [])) != 1:
        raise Unsupported('form of the labels')
    q = fresh('q')
    g, hs, _ = integer(q)
    (n, start, part, pos, val, inside, of), (m, u, first, cls, N_, rd) = c.ghost['concatenations'][-1], c.ghost['unique_list'][-1]
    Z = ILAB(part(first(q)), pos(first(q)))
    v.check('a distinct label is the label of a document', z3.Implies(z3.And(q >= 0, q < m), u(q) == z3.ToReal(Z)), [], plain=hs)
    v.check('the distinct labels are integers', z3.substitute(g, (u(q), z3.ToReal(Z))), [], plain=[])
    for p in paths:
        if not no_raise(v, p):
            continue
        t = table(v, p, (D, M, None, None), (ds, ms, None, None), ['dataset', 'model', 'label_i', 'label_j'])
        if t is None:
            continue
        (n, start, part, pos, val, inside, of), (m, u, first, cls, N_, rd) = c.ghost['concatenations'][-1], c.ghost['unique_list'][-1]
        i, j, x, y, q, r, s, w = [fresh(q) for q in ('i', 'j', 'x', 'y', 'q', 'r', 's', 'w')]
        here = [i >= 0, i < D, j >= 0, j < M]
        cs = p.val.attrs['coords']
        lab = None
        for d in (2, 3):
            L, el = v.in_state(p, lambda: c.seq((cs.items if isinstance(cs, PyList) else list(cs))[d]))
            lab = lambda x, el=el: num(v.in_state(p, lambda: el(x)))
            nm = 'coordinate %s' % ('label_i', 'label_j')[d - 2]
            v.check(nm + ': as many as distinct labels', z3.And(num(L) == m, num(t.shape[d]) == m), p.hyps)
            ax = [integer(x)[0], integer(y)[0]]
            v.check(nm + ': increasing', z3.Implies(z3.And(x >= 0, x < y, y < m), lab(x) < lab(y)), p.hyps, plain=ax + [z3.Implies(z3.And(x >= 0, x < y, y < m), u(x) < u(y))])
            f = first(x)
            v.check(nm + ': each one is the label of a document', z3.Implies(z3.And(x >= 0, x < m), z3.And(part(f) >= 0, part(f) < D, pos(f) >= 0, pos(f) < NDOC(part(f)), lab(x) == ILAB(part(f), pos(f)))), p.hyps,
                    plain=[c.ghost['member'](x), of(f)])
            P, fs = where_(i, r)
            v.check(nm + ': every label occurs', z3.Implies(z3.And(i >= 0, i < D, r >= 0, r < NDOC(i)), z3.And(P >= 0, P < m, lab(P) == ILAB(i, r))), p.hyps, plain=fs)
        cell = prune(num(v.in_state(p, lambda: t.get(i, j, x, y))), here + [x >= 0, x < m, y >= 0, y < m])
        # one unit per pair r <= s of documents of a query
        lo = lambda q: OFF(i, q)
        le = lambda q: OFF(i, q + 1) - OFF(i, q)

        def unit_(q, r, s):
            a, b = lo(q) + r, lo(q) + r + s
            la, lb = ILAB(i, a), ILAB(i, b)
            first_, second = z3.If(SCORE(i, j, a) < SCORE(i, j, b), la, lb), z3.If(SCORE(i, j, a) < SCORE(i, j, b), lb, la)
            return z3.If(z3.And(z3.Not(z3.And(skip, la == lb)), lab(x) == first_, lab(y) == second), 1, 0)
        row = lambda q, r: mk_sum(lambda s: unit_(q, r, s), le(q) - r)
        query = lambda q: mk_sum(lambda r: row(q, r), le(q))
        total = mk_sum(query, NQ(i))
        if cell.decl().name() != 'SUMI':
            raise Unsupported('form of the table')
        body = cell.arg(0)
        b1 = z3.simplify(apply_lam(body, q))
        b2 = z3.simplify(apply_lam(b1.arg(0), r)) if b1.decl().name() == 'SUMI' else b1
        if b1.decl().name() != 'SUMI' or b2.decl().name() != 'SUMI':
            raise Unsupported('form of the table')
        b3 = z3.simplify(apply_lam(b2.arg(0), s))
        rng = here + [x >= 0, x < m, y >= 0, y < m, q >= 0, q < NQ(i), r >= 0, r < le(q), s >= 0, s < le(q) - r]
        facts = [lo(q) >= 0, lo(q) + le(q) <= NDOC(i)]
        v.check('documents of a query', z3.Implies(z3.And(i >= 0, i < D, q >= 0, q < NQ(i)), z3.And(*facts)), p.hyps)
        Pa, fa = where_(i, lo(q) + r)
        Pb, fb = where_(i, lo(q) + r + s)
        apart = [z3.Implies(z3.And(k1 >= 0, k1 < k2, k2 < m), u(k1) < u(k2)) for k1 in (x, y) for k2 in (Pa, Pb)] + [z3.Implies(z3.And(k1 >= 0, k1 < k2, k2 < m), u(k1) < u(k2)) for k1 in (Pa, Pb) for k2 in (x, y)]
        v.check('one unit for each pair, at the labels in the order of the scores', b3 == unit_(q, r, s), [],
                plain=[z3.simplify(h) for h in rng + facts + fa + fb + apart + [integer(k)[0] for k in (x, y)]])
        # the sums are equal because their lengths and their terms are
        v.check('pairs of a document: how many', z3.Implies(z3.And(*rng[:-2]), b2.arg(1) == le(q) - r), [], plain=[])
        v.check('documents of a query: how many', b1.arg(1) == le(q), [], plain=[])
        v.check('queries of the dataset: how many', cell.arg(1) == NQ(i), [], plain=[])


# -- C23 ---------------------------------------------------------------------------------------------------------------------
CLASS = opaque('CLASS', I, I, R)


@unit('C23', 'effectiveness.query_class_performance', weight=2)
def classes(v):
    c = v.ctx
    ds, ms, ks, D, M, K = world(v)
    cache = z3.Bool('cache')
    qc = Seq(D, lambda i: N.mk(c, (NQ(num(i)),), lambda q: CLASS(num(i), num(q)), 'float'))
    paths = v.run(lambda: c.call(v.func(EF + 'query_class_performance'), [ds, ms, ks, qc], dict(cache=cache)))
    i, j, k, x, y, q = [fresh(s) for s in ('i', 'j', 'k', 'x', 'y', 'q')]
    for p in paths:
        if not no_raise(v, p):
            continue
        t = table(v, p, (D, M, K, None), (ds, ms, ks, None), ['dataset', 'model', 'metric', 'classes'])
        if t is None:
            continue
        cs = p.val.attrs['coords']
        L, el = v.in_state(p, lambda: c.seq((cs.items if isinstance(cs, PyList) else list(cs))[3]))
        lab = lambda x: real(v.in_state(p, lambda: el(x)))
        v.check('as many columns as classes', num(L) == num(t.shape[3]), p.hyps)
        v.check('classes: increasing', z3.Implies(z3.And(x >= 0, x < y, y < num(L)), lab(x) < lab(y)), p.hyps)
        # the classes are the distinct values of all the class arrays
        cc = c.ghost.get('concatenations', [])
        whole = [g for g in c.ghost.get('uniques', []) if cc and same(g['n'], cc[-1][1](D))]
        if len(cc) < 1 or not whole:
            raise Unsupported('form of the classes')
        (n, start, part, pos, val, inside, of), U = cc[-1], whole[-1]
        f = U['first'](x)
        pf = part(f)
        G = v.in_state(p, lambda: (N.n_unique(c, [qc.elem(pf)], {}), c.ghost['uniques'][-1])[1])
        w = G['first'](pos(f))
        v.check('classes: each one is the class of a query', z3.Implies(z3.And(x >= 0, x < num(L)), z3.And(pf >= 0, pf < D, w >= 0, w < NQ(pf), lab(x) == CLASS(pf, w))), p.hyps,
                plain=[num(L) == U['m'], U['member'](x), of(f), G['member'](pos(f))])
        H = v.in_state(p, lambda: (N.n_unique(c, [qc.elem(i)], {}), c.ghost['uniques'][-1])[1])
        at = start(i) + H['class_of'](q)
        v.check('classes: every class of a query occurs', z3.Implies(z3.And(i >= 0, i < D, q >= 0, q < NQ(i)), z3.And(U['class_of'](at) >= 0, U['class_of'](at) < num(L), lab(U['class_of'](at)) == CLASS(i, q))), p.hyps,
                plain=[num(L) == U['m'], H['class'](q), inside(i, H['class_of'](q)), U['class'](at)])
        here = [i >= 0, i < D, j >= 0, j < M, k >= 0, k < K, x >= 0, x < num(L)]
        cell = real(v.in_state(p, lambda: t.get(i, j, k, x)))
        inside_ = lambda q: CLASS(i, q) == lab(x)
        cnt = count(inside_, NQ(i))
        tot = mk_sum(lambda q: z3.If(inside_(q), EVALQ(k, i, lscore(i, j), NDOC(i), q), 0), NQ(i))
        some = prune(cell, here + [cnt > 0])
        none = prune(cell, here + [cnt <= 0])
        v.check('cell (dataset, model, metric, class): mean of the metric over the queries of the class', z3.Implies(z3.And(*here, cnt > 0), some == tot / z3.ToReal(cnt)), p.hyps, plain=here + [cnt > 0])
        v.check('cell (dataset, model, metric, class): undefined when no query is of the class', z3.Implies(z3.And(*here, cnt <= 0), none == N.NAN), p.hyps, plain=here)


# -- C22 ---------------------------------------------------------------------------------------------------------------------
def bins_of(v, ends, extremes):
    """the grid of the call to linspace: its definition; the interval is not reversed"""
    c = v.ctx
    c.ghost['division by zero'] = True
    got = []

    def at(lo, hi, n):
        g = lambda b: N.GRID(lo, hi, n, num(b))
        got.append((lo, hi, n, g))
        # precondition when an end is given; shown below when neither is
        c.assume(lo <= hi)
    c.ghost['linspace'] = at
    return got


def extreme(v, t, name, cells, value, least):
    """t is the least (greatest) of the values at the given index ranges"""
    idx = [fresh('x%d' % k) for k in range(len(cells))]
    rng, reach = [], t
    kind = ('MINR',) if least else ('MAXR',)
    facts, ws, w_rng = [], [], []
    # chain of the definitions of the nested extremes: at the indices given and at their witnesses
    cur, low = t, t
    for k, ix in enumerate(idx):
        for term, at, out in ((cur, ix, True), (low, fresh('w%d' % k), False)):
            if not (z3.is_app(term) and term.decl().name() in kind):
                raise Unsupported('form of the %s value' % name)
            n, val = term.arg(1), z3.simplify(apply_lam(term.arg(0), at))
            if out:
                facts.append(z3.Implies(z3.And(at >= 0, at < n), term <= val if least else term >= val))
                cur = val
            else:
                facts.append(z3.Implies(n >= 1, z3.And(at >= 0, at < n, term == val)))
                low = val
                ws.append(at)
    size = [cells[k](*idx[:k]) for k in range(len(idx))]
    sw = [cells[k](*ws[:k]) for k in range(len(ws))]
    inr = [z3.And(x >= 0, x < n) for x, n in zip(idx, size)]
    pos = [n >= 1 for n in sw]
    v.check('%s: no value is beyond it' % name, z3.Implies(z3.And(*inr), (t <= value(*idx)) if least else (t >= value(*idx))), [], plain=facts + inr)
    v.check('%s: one of the values' % name, z3.And(z3.And(*[z3.And(x >= 0, x < n) for x, n in zip(ws, sw)]), t == value(*ws)), [], plain=facts + pos)


def not_reversed(v, lo, hi, x):
    """the interval by default contains the first value (the two facts were shown for every value)"""
    v.check('the interval by default is not reversed', lo <= hi, [], plain=[lo <= x, x <= hi])


def fractions(v, name, cell, here, x, keep_all, n, total, b, B, E):
    """cell = (number of the r < n with keep(r) and E(0) <= x(r) < E(b + 1), or <= in the last bin) / total"""
    keep = keep_all or (lambda r: z3.BoolVal(True))
    one = lambda p: z3.If(p, z3.RealVal(1), z3.RealVal(0))
    inside = lambda b, y: z3.And(E(b) <= y, z3.If(b == B - 1, y <= E(b + 1), y < E(b + 1)))
    below = lambda b, y: z3.And(E(0) <= y, z3.If(b == B, y <= E(b), y < E(b)))
    h = lambda b: (lambda r: one(z3.And(keep(r), inside(b, x(r)))))
    g = lambda b: (lambda r: one(z3.And(keep(r), below(b, x(r)))))
    ts = [t for t in reductions(cell) if t.decl().name() == 'SUM' and z3.simplify(apply_lam(t.arg(0), fresh('b'))).decl().name() == 'SUM']
    if len({t.get_id() for t in ts}) != 1:
        raise Unsupported('form of the table')
    t = ts[0]
    q, r, k = fresh('q'), fresh('r'), fresh('k')
    inner = z3.simplify(apply_lam(t.arg(0), q))
    if inner.decl().name() != 'SUM':
        raise Unsupported('form of the table')
    v.check('%s: bins added' % name, t.arg(1) == b + 1, here, plain=here)
    v.check('%s: how many values' % name, inner.arg(1) == n, here, plain=here)
    v.check('%s: values of a bin' % name, z3.Implies(z3.And(q >= 0, q <= b, r >= 0, r < n), apply_lam(inner.arg(0), r) == h(q)(r)), here, plain=here)
    T = lambda m: mk_sum(lambda q: mk_sum(h(q), n), m)
    # the bins up to b together
    zero, G = z3.IntVal(0), lambda m: mk_sum(g(m), n)
    mono = [B >= 1, k >= 0, k < B, E(0) <= E(k), E(k) <= E(k + 1)]
    l0 = linear_lemma(v, '%s: before the first bin' % name, [(1, g(zero))], n, [B >= 1])
    l1 = linear_lemma(v, '%s: next bin' % name, [(1, g(k)), (1, h(k)), (-1, g(k + 1))], n, mono)
    v.check('%s (induction): first' % name, T(zero) == G(zero), [], plain=[n >= 0, l0, T(zero) == 0])
    v.check('%s (induction): next' % name, T(k + 1) == G(k + 1), [], plain=[n >= 0, l1, T(k) == G(k), T(k + 1) == T(k) + mk_sum(h(k), n)])
    total = real(total)
    some = [total >= 1]
    if keep_all is not None:
        # there are no values in the bins when no value is kept
        c_ = lambda r: one(keep(r))
        le = monotone(v, '%s: at most the values kept' % name, g(b + 1), c_, n, [])
        nonneg(v, '%s: number of values' % name, g(b + 1), n, [])
        some = [n >= 0, le, G(b + 1) >= 0, mk_sum(c_, n) == total]
    v.check('%s: the fraction' % name, z3.Implies(z3.And(*here), cell == z3.If(total == 0, N.NAN, G(b + 1) / total)), [], plain=here + [
        t == T(b + 1), T(b + 1) == G(b + 1)] + some)


def edges_increase(v, lo, hi, n, E):
    k = fresh('k')
    B = n - 1
    i = fresh('i')
    d = lambda b: E(b) == lo + (hi - lo) * z3.ToReal(b) / z3.ToReal(B)
    v.check('edges of the bins do not decrease', z3.Implies(z3.And(B >= 1, lo <= hi, k >= 0, k < B, d(z3.IntVal(0)), d(k), d(k + 1)), z3.And(E(z3.IntVal(0)) <= E(k), E(k) <= E(k + 1), E(z3.IntVal(0)) == lo)), [])


def query_wise_(v, given_bins, given_start, given_end):
    c = v.ctx
    ds, ms, ks, D, M, K = world(v)
    c.ghost['defined'] = ('EVALQ', 'SCORE')
    cache = z3.Bool('cache')
    bins = v.int('bins', 1) if given_bins else None
    start = z3.Real('start') if given_start else None
    end = z3.Real('end') if given_end else None
    got = bins_of(v, (start, end), None)
    paths = v.run(lambda: c.call(v.func(EF + 'query_wise_performance'), [ds, ms, ks], dict(bins=bins, start=start, end=end, cache=cache)))
    i, j, k, b = [fresh(s) for s in ('i', 'j', 'k', 'b')]
    for p in paths:
        if not no_raise(v, p):
            continue
        if not got:
            raise Unsupported('form of the bins')
        lo, hi, n, E = got[-1]
        t = table(v, p, (D, M, K, None), (ds, ms, ks, None), ['dataset', 'model', 'metric', 'bin'])
        if t is None:
            continue
        B = num(t.shape[3])
        value = lambda i, j, k, q: EVALQ(k, i, lscore(i, j), NDOC(i), q)
        cells = [lambda: D, lambda i: M, lambda i, j: K, lambda i, j, k: NQ(i)]
        if given_start:
            v.check('start', lo == start, [])
        else:
            extreme(v, lo, 'start', cells, value, True)
        if given_end:
            v.check('end', hi == end, [])
        else:
            extreme(v, hi, 'end', cells, value, False)
        if not given_start and not given_end:
            not_reversed(v, lo, hi, value(*[z3.IntVal(0)] * 4))
        if given_bins:
            v.check('number of bins', B == bins, p.hyps)
        else:
            v.check('number of bins: the largest number of queries', z3.And(z3.Implies(z3.And(i >= 0, i < D), NQ(i) <= B), EXISTS(lam(lambda i: NQ(i) == B), D)), p.hyps)
        v.check('number of edges', n == B + 1, p.hyps)
        cs = p.val.attrs['coords']
        m_, el = v.in_state(p, lambda: c.seq((cs.items if isinstance(cs, PyList) else list(cs))[3]))
        v.check('coordinate bin: the upper edges', z3.And(num(m_) == B, z3.Implies(z3.And(b >= 0, b < B), real(v.in_state(p, lambda: el(b))) == E(b + 1))), p.hyps)
        edges_increase(v, lo, hi, n, E)
        here = [i >= 0, i < D, j >= 0, j < M, k >= 0, k < K, b >= 0, b < B, NQ(i) >= 1]
        cell = prune(real(v.in_state(p, lambda: t.get(i, j, k, b))), here)
        fractions(v, 'fraction of the queries', cell, here, lambda q: value(i, j, k, q), None, NQ(i), NQ(i), b, B, E)


for gb in (False, True):
    for gs in (False, True):
        for ge in (False, True):
            unit('C22', 'effectiveness.query_wise_performance (%s)' % ', '.join(nm if g else nm + ' by default' for nm, g in (('bins', gb), ('start', gs), ('end', ge))))(
                lambda v, a=(gb, gs, ge): query_wise_(v, *a))


def graded_(v, given_start, given_end):
    c = v.ctx
    ds, ms, ks, D, M, K = world(v)
    c.ghost['defined'] = ('SCORE',)
    cache = z3.Bool('cache')
    bins = v.int('bins', 1)
    start = z3.Real('start') if given_start else None
    end = z3.Real('end') if given_end else None
    got = bins_of(v, (start, end), None)
    paths = v.run(lambda: c.call(v.func(EF + 'document_graded_relevance'), [ds, ms], dict(bins=bins, start=start, end=end, cache=cache)))
    i, j, x, y, b, r = [fresh(s) for s in ('i', 'j', 'x', 'y', 'b', 'r')]
    for p in paths:
        if not no_raise(v, p):
            continue
        if not got:
            raise Unsupported('form of the bins')
        lo, hi, n, E = got[-1]
        t = table(v, p, (D, M, None, bins), (ds, ms, None, None), ['dataset', 'model', 'label', 'bin'])
        if t is None:
            continue
        B = bins
        cells = [lambda: D, lambda i: M, lambda i, j: NDOC(i)]
        if given_start:
            v.check('start', lo == start, [])
        else:
            extreme(v, lo, 'start', cells, SCORE, True)
        if given_end:
            v.check('end', hi == end, [])
        else:
            extreme(v, hi, 'end', cells, SCORE, False)
        if not given_start and not given_end:
            not_reversed(v, lo, hi, SCORE(*[z3.IntVal(0)] * 3))
        v.check('number of edges', n == B + 1, p.hyps)
        cs = p.val.attrs['coords']
        cs = cs.items if isinstance(cs, PyList) else list(cs)
        m_, el = v.in_state(p, lambda: c.seq(cs[3]))
        v.check('coordinate bin: the upper edges', z3.And(num(m_) == B, z3.Implies(z3.And(b >= 0, b < B), real(v.in_state(p, lambda: el(b))) == E(b + 1))), p.hyps)
        edges_increase(v, lo, hi, n, E)
        # the labels are the distinct labels of all the datasets
        L, le = v.in_state(p, lambda: c.seq(cs[2]))
        lab = lambda x: real(v.in_state(p, lambda: le(x)))
        v.check('as many rows as labels', num(L) == num(t.shape[2]), p.hyps)
        v.check('labels: increasing', z3.Implies(z3.And(x >= 0, x < y, y < num(L)), lab(x) < lab(y)), p.hyps)
        cc, un = c.ghost.get('concatenations', []), c.ghost.get('uniques', [])
        whole = [g for g in un if cc and same(g['n'], cc[-1][1](D))]
        if not whole:
            raise Unsupported('form of the labels')
        (n_, at, part, pos, val, inside, of), U = cc[-1], whole[-1]
        f = U['first'](x)
        v.check('labels: each one is the label of a document', z3.Implies(z3.And(x >= 0, x < num(L)), z3.And(part(f) >= 0, part(f) < D, pos(f) >= 0, pos(f) < NDOC(part(f)), lab(x) == LABEL(part(f), pos(f)))), p.hyps,
                plain=[num(L) == U['m'], U['member'](x), of(f)])
        P = U['class_of'](at(i) + r)
        v.check('labels: every one occurs', z3.Implies(z3.And(i >= 0, i < D, r >= 0, r < NDOC(i)), z3.And(P >= 0, P < num(L), lab(P) == LABEL(i, r))), p.hyps, plain=[num(L) == U['m'], inside(i, r), U['class'](at(i) + r)])
        here = [i >= 0, i < D, j >= 0, j < M, x >= 0, x < num(L), b >= 0, b < B, NDOC(i) >= 1]
        cell = prune(real(v.in_state(p, lambda: t.get(i, j, x, b))), here)
        lx = prune(lab(x), here)
        keep = lambda r: LABEL(i, r) == lx
        fractions(v, 'fraction of the documents', cell, here, lambda r: SCORE(i, j, r), keep, NDOC(i), count(keep, NDOC(i)), b, B, E)


for gs in (False, True):
    for ge in (False, True):
        unit('C22', 'effectiveness.document_graded_relevance (%s)' % ', '.join(nm if g else nm + ' by default' for nm, g in (('start', gs), ('end', ge))))(
            lambda v, a=(gs, ge): graded_(v, *a))
