"""C27: randomization test; C28: bias and variance."""
import itertools, os
from contracts.common import *
from contracts import effect as E
import vcg.npmodel as N

ST = 'rankeval.analysis.statistical.'


# -- C27 ---------------------------------------------------------------------------------------------------------------------
@unit('C27', 'statistical._randomization', weight=2)
def randomization(v):
    c = v.ctx
    n, P = v.int('n', 1), v.int('n_perm', 1)
    a, b = v.array('scores_a', n), v.array('scores_b', n)
    fa, fb = a.frozen(), b.frozen()
    CH = fresh_fun('CHOICE', I, I, B)

    def choice(ctx, args, kw):
        xs = args[0]
        xs = xs.items if isinstance(xs, PyList) else list(xs) if isinstance(xs, tuple) else None
        m = args[1] if len(args) > 1 else kw.get('size')
        if xs is None or len(xs) != 2 or sorted(map(str, xs)) != ['False', 'True'] or len(args) > 2 or set(kw) - {'size'} or len(ctx.loop_idx) != 1:
            raise Unsupported('random draw')
        ctx.oblige('one draw per query', num(m) == n)
        i = ctx.loop_idx[-1]
        return N.mk(ctx, (m,), lambda j: CH(i, num(j)) if xs[0] is False else z3.Not(CH(i, num(j))), 'bool')
    c.overrides['numpy.random.choice'] = choice
    paths = v.run(lambda: c.call(v.func(ST + '_randomization'), [a, b], dict(n_perm=P)))
    ma, mb = mk_sum(lambda j: fa(j), n), mk_sum(lambda j: fb(j), n)
    nr, Pr = z3.ToReal(n), z3.ToReal(P)
    swap = ma / nr < mb / nr
    i = fresh('i')
    one, zero = z3.IntVal(1), z3.IntVal(0)
    zabs = lambda x: z3.If(x >= 0, x, -x)
    base = list(c.pc)
    plainb = [f for f in base if not z3.is_quantifier(f)]
    for p in paths:
        if not no_raise(v, p):
            continue
        p1, p2 = p.val
        hy = p.hyps
        for side in (True, False):
            h = swap if side else z3.Not(swap)
            if v.prover.plain([f for f in hy if not z3.is_quantifier(f)] + [h], z3.BoolVal(False), 1000):
                continue        # not on this path
            best, worst = (fb, fa) if side else (fa, fb)
            obs = mk_sum(best, n) / nr - mk_sum(worst, n) / nr
            # the i-th random assignment: the scores of the queries drawn are exchanged
            first = lambda i: lambda j: z3.If(CH(i, j), worst(j), best(j))
            second = lambda i: lambda j: z3.If(CH(i, j), best(j), worst(j))
            sel = lambda i, f: lambda j: z3.If(CH(i, j), f(j), z3.RealVal(0))
            spec = lambda i: mk_sum(first(i), n) / nr - mk_sum(second(i), n) / nr
            lem = [linear_lemma(v, 'sum after exchanging', [(1, first(i)), (-1, best), (1, sel(i, best)), (-1, sel(i, worst))], n, base),
                   linear_lemma(v, 'sum after exchanging', [(1, second(i)), (-1, worst), (1, sel(i, worst)), (-1, sel(i, best))], n, base)]
            at = lambda k: [z3.substitute(z3.And(*lem), (i, k))]
            cnts = []
            for q, val, cond in (('one-sided', p1, lambda i: spec(i) >= obs), ('two-sided', p2, lambda i: zabs(spec(i)) >= zabs(obs))):
                target = mk_sum(lambda i: z3.If(cond(i), one, zero), P)
                cnts.append((target, cond))
                e = pointwise(v, '%s p-value: the assignments counted are those that reach the observed difference' % q, val, target, P, hy + [h], at, plainb + [h])
                if e is None:
                    raise Unsupported('form of the p-value')
                v.check('%s p-value: fraction of the assignments that reach the observed difference' % q, real(val) * Pr == real(target), hy, plain=plainb + [h, e])
            (c1, k1), (c2, k2) = cnts
            pos = obs >= 0
            v.check('the observed difference is in favour of the better system', pos, hy, plain=plainb + [h])
            term = lambda k: lambda i: z3.If(k(i), one, zero)
            monotone(v, 'p-values at least 0', lambda i: zero, term(k1), P, plainb + [pos])
            monotone(v, 'one-sided p-value at most the two-sided', term(k1), term(k2), P, plainb + [pos])
            monotone(v, 'p-values at most 1', term(k2), lambda i: one, P, plainb + [pos])
            k = fresh('k')
            same_ = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), fa(k) == fb(k)), patterns=[fa(k)])
            eqs = [sums_equal(v, 'identical systems', f, g, n, base + [same_]) for f, g in ((best, worst), (first(i), second(i)))]
            v.check('identical systems: no observed difference', obs == 0, hy, plain=plainb + eqs)
            v.check('identical systems: every assignment gives no difference and counts', z3.And(spec(i) == 0, k1(i), k2(i)), hy, plain=plainb + eqs)
            if not side:
                # exchanging the arguments: with different means the roles are the same, hence the same values are counted
                w2 = mb / nr < ma / nr
                v.check('exchanging systems of different means gives the same roles', z3.Implies(ma / nr != mb / nr, w2), hy, plain=plainb + [h])
    unchanged(v, paths, [('scores of the first system', a, fa), ('scores of the second system', b, fb)])


PV1 = opaque('PVALUE1', AIR, I, AIR, I, I, R)
PV2 = opaque('PVALUE2', AIR, I, AIR, I, I, R)


@unit('C27', 'statistical.statistical_significance')
def significance(v):
    c = v.ctx
    ds, ms, ks, D, M, K = E.world(v)
    nperm = v.int('n_perm', 1)
    cache = z3.Bool('cache')
    a, b = z3.Int('model_a'), z3.Int('model_b')
    c.assume(a >= 0, a < M, b >= 0, b < M)

    def rnd(ctx, args, kw):
        args = list(args) + [kw[k] for k in ('metric_scores_a', 'metric_scores_b') if k in kw]
        n = kw.get('n_perm', args[2] if len(args) > 2 else 100000)
        x, y = N.to_arr(ctx, args[0]), N.to_arr(ctx, args[1])
        ctx.oblige('_randomization: values of the same queries', num(x.shape[0]) == num(y.shape[0]))
        fx, fy = x.frozen(), y.frozen()
        t = (lam(lambda q: real(fx(q))), num(x.shape[0]), lam(lambda q: real(fy(q))), num(y.shape[0]), num(n))
        return (PV1(*t), PV2(*t))
    c.overrides[ST + '_randomization'] = rnd
    paths = v.run(lambda: c.call(v.func(ST + 'statistical_significance'), [ds, ms.elem(a), ms.elem(b), ks], dict(n_perm=nperm, cache=cache)))
    i, k = fresh('i'), fresh('k')
    for p in paths:
        if not no_raise(v, p):
            continue
        t = E.table(v, p, (D, K, 2), (ds, ks, lambda x: v.check('coordinate p-value', z3.BoolVal(list(x.items if isinstance(x, PyList) else x) == ['one-sided', 'two-sided']), [])),
                    ['dataset', 'metric', 'p-value'])
        if t is None:
            continue
        q = lambda m: (lam(lambda q: E.EVALQ(k, i, E.lscore(i, m), E.NDOC(i), q)), E.NQ(i))
        for s, PV in ((0, PV1), (1, PV2)):
            x = v.in_state(p, lambda: t.get(i, k, s))
            v.check('cell (dataset, metric, %d) is the p-value of the values of the queries under the two models' % s,
                    z3.Implies(z3.And(i >= 0, i < D, k >= 0, k < K), real(x) == PV(*q(a), *q(b), nperm)), p.hyps)


# -- C28 ---------------------------------------------------------------------------------------------------------------------
MULTI = opaque('MULTI', I, I, I, I, I, R)         # dataset, algorithm, draw, document, repetition
ALGO = lambda ctx, g: Abstract('algorithm', dict(__name__=Abstract('name', key=('name', g))), key=('algo', g))


@unit('C28', 'statistical.bias_variance', weight=2)
def bias_variance(v):
    c = v.ctx
    ds, ms, ks, D, M, K = E.world(v)
    G, L, kf = v.int('n_algos', 1), v.int('L', 2), v.int('k', 2)
    algos = Seq(G, lambda g: ALGO(c, num(g)))
    ISMSE = fresh_fun('ISMSE', I, B)
    elem = ks.elem

    def metric_(k):
        o = elem(k)
        o.methods['isinstance'] = lambda ctx, o, cls: True if isinstance(cls, ClassVal) and cls.name == 'Metric' else ISMSE(o.key[1]) if isinstance(cls, ClassVal) and cls.name == 'MSE' else False
        return o
    ks = Seq(K, metric_)
    draws = []

    def multi(ctx, args, kw):
        d = kw.get('dataset', args[0] if args else None)
        a = kw.get('algo', args[1] if len(args) > 1 else None)
        l = kw.get('L', args[2] if len(args) > 2 else 10)
        k = kw.get('k', args[3] if len(args) > 3 else 2)
        if not isinstance(d, Abstract) or d.key[0] != 'dataset' or not isinstance(a, Abstract) or a.key[0] != 'algo':
            raise Unsupported('arguments of _multi_kfold_scoring')
        ctx.oblige('the requested numbers of repetitions and folds', z3.And(num(l) == L, num(k) == kf))
        ix = [num(x) for x in ctx.loop_idx]
        draws.append(len(ix))
        t = opaque('CALL%d' % len(ix), *([I] * len(ix) + [I]))(*ix) if ix else z3.IntVal(0)
        return N.mk(ctx, (E.NDOC(d.key[1]), num(l)), lambda r, c_: MULTI(d.key[1], a.key[1], t, num(r), num(c_)), 'float')
    c.overrides[ST + '_multi_kfold_scoring'] = multi
    paths = v.run(lambda: c.call(v.func(ST + 'bias_variance'), [ds, algos, ks], dict(L=L, k=kf)))
    i, g, k = fresh('i'), fresh('g'), fresh('k')
    call = lambda order: opaque('CALL%d' % len(order), *([I] * len(order) + [I]))(*order) if order else z3.IntVal(0)
    for p in paths:
        if not no_raise(v, p):
            continue
        t = E.table(v, p, (D, K, G, 3), (ds, ks, None, None), ['dataset', 'metric', 'algo', 'error'])
        if t is None:
            continue
        names = p.val.attrs['coords']
        names = names.items if isinstance(names, PyList) else list(names)
        m_, el = v.in_state(p, lambda: c.seq(names[2]))
        o = v.in_state(p, lambda: el(g))
        if isinstance(o, Abstract) and o.key and o.key[0] == 'name':
            v.check('coordinate algo: the names of the algorithms, in order', z3.And(num(m_) == G, z3.Implies(z3.And(g >= 0, g < G), o.key[1] == g)), p.hyps)
        else:
            v.fail('coordinate algo', 'not the names of the algorithms')
        v.check('coordinate error', z3.BoolVal(list(names[3].items if isinstance(names[3], PyList) else names[3]) == ['Error', 'Bias', 'Variance']), [])
        cell = [v.in_state(p, lambda: t.get(i, k, g, s)) for s in range(3)]
        if not draws:
            raise Unsupported('no scoring')
        for mse in (True, False):
            inst = [i >= 0, i < D, k >= 0, k < K, g >= 0, g < G, ISMSE(k) if mse else z3.Not(ISMSE(k))]
            X, y = (E.NDOC(i), lambda q: E.LABEL(i, q)) if mse else (E.NQ(i), lambda q: z3.RealVal(1))
            alts = []
            for order in sorted(set(itertools.permutations((i, g, k), draws[0])), key=str):
                if draws[0] > 3:
                    break
                cl = call(order)
                S = (lambda q, l: MULTI(i, g, cl, q, l)) if mse else \
                    (lambda q, l: E.EVALQ(k, i, lam(lambda r: MULTI(i, g, cl, r, l)), E.NDOC(i), q))
                mean = lambda q: mk_sum(lambda l: S(q, l), L) / z3.ToReal(L)
                tot = lambda f: mk_sum(lambda q: mk_sum(lambda l: f(q, l), L), X) / (z3.ToReal(X) * z3.ToReal(L))
                sq = lambda x: x * x
                spec = [tot(lambda q, l: sq(S(q, l) - y(q))), mk_sum(lambda q: sq(mean(q) - y(q)), X) / z3.ToReal(X),
                        tot(lambda q, l: sq(S(q, l) - mean(q)))]
                sub = [(f, z3.BoolVal(True)) for f in (inst[0], inst[2], inst[4])]
                goals = []
                for s in range(3):
                    got = z3.simplify(z3.substitute(z3.simplify(real(cell[s])), *[(z3.simplify(f), z3.BoolVal(True)) for f in inst[:6]], (ISMSE(k), z3.BoolVal(mse))))
                    if os.environ.get('SHOW'):
                        print(got, '\n=====', z3.simplify(spec[s]))
                    goals.append((got == spec[s], p.hyps + inst, []))
                alts.append((str(order), goals))
            v.check_any('error, bias and variance of the %s' % ('documents' if mse else 'metric of the queries'), alts)


@unit('C28', 'lemma: error = bias + variance')
def decomposition(v):
    """for any scores S(q, l) and targets y(q): over the formulas that the contract of bias_variance gives to its table"""
    S, y = fresh_fun('S', I, I, R), fresh_fun('y', I, R)
    X, L = v.int('X', 1), v.int('L', 2)
    q, k = fresh('q'), fresh('k')
    Lr, Xr = z3.ToReal(L), z3.ToReal(X)
    mean = lambda q: mk_sum(lambda l: S(q, l), L) / Lr
    m, yy = z3.Reals('m y')
    sq = lambda x: x * x
    f1, f2, f3 = (lambda l: sq(S(q, l) - yy)), (lambda l: sq(S(q, l) - m)), (lambda l: S(q, l))
    A, B, C = (lambda n: mk_sum(f1, n)), (lambda n: mk_sum(f2, n)), (lambda n: mk_sum(f3, n))
    P = lambda n: A(n) == B(n) + 2 * (m - yy) * (C(n) - z3.ToReal(n) * m) + z3.ToReal(n) * sq(m - yy)
    zero = z3.IntVal(0)
    v.check('one row (induction): first', P(zero), [], plain=sum_def(f1, zero) + sum_def(f2, zero) + sum_def(f3, zero))
    v.check('one row (induction): next', P(k + 1), [], plain=[k >= 0, P(k)] + sum_def(f1, k) + sum_def(f2, k) + sum_def(f3, k))
    row = lambda q, mm, y_: mk_sum(lambda l: sq(S(q, l) - y_), L) == mk_sum(lambda l: sq(S(q, l) - mm), L) + Lr * sq(mm - y_)
    v.check('one row', row(q, m, yy), [], plain=[P(L), L >= 1, C(L) == Lr * m])
    ac = z3.Real('C')
    v.check('the mean', Lr * (ac / Lr) == ac, [], plain=[L >= 1])
    a, b, d = (lambda q: mk_sum(lambda l: sq(S(q, l) - y(q)), L)), (lambda q: mk_sum(lambda l: sq(S(q, l) - mean(q)), L)), (lambda q: sq(mean(q) - y(q)))
    lem = linear_lemma(v, 'all the rows', [(1, a), (-1, b), (-Lr, d)], X, [row(q, mean(q), y(q))], at=(q, [row(q, mean(q), y(q))]))
    err, bias, var = mk_sum(a, X) / (Xr * Lr), mk_sum(d, X) / Xr, mk_sum(b, X) / (Xr * Lr)
    e_, b_, d_ = z3.Reals('e_ b_ d_')
    v.check('fractions', e_ / (Xr * Lr) == d_ / Xr + b_ / (Xr * Lr), [], plain=[X >= 1, L >= 1, e_ == b_ + Lr * d_])
    v.check('error = bias + variance', err == bias + var, [],
            plain=[X >= 1, lem, z3.ForAll([e_, b_, d_], z3.Implies(e_ == b_ + Lr * d_, e_ / (Xr * Lr) == d_ / Xr + b_ / (Xr * Lr)))])
    for nm, f in (('error', a), ('variance', b)):
        g = (lambda l: sq(S(q, l) - y(q))) if nm == 'error' else (lambda l: sq(S(q, l) - mean(q)))
        nonneg(v, nm + ' of a row', g, L, [])
        nonneg(v, nm, f, X, [f(q) >= 0], q)
    nonneg(v, 'bias', d, X, [])
    v.check('quotients', z3.And(e_ / (Xr * Lr) >= 0, e_ / Xr >= 0), [], plain=[e_ >= 0, X >= 1, L >= 1])


KS = opaque('KFOLD', I, I, R)                     # draw, document


@unit('C28', 'statistical._multi_kfold_scoring')
def multi_kfold(v):
    c = v.ctx
    n, L, k = v.int('n_instances', 1), v.int('L', 2), v.int('k', 2)
    d = Abstract('dataset', dict(n_instances=n), key=('dataset', 0))
    algo = Abstract('algorithm', key=('algo', 0))

    def one(ctx, args, kw):
        a = list(args) + [None] * 3
        g = [kw.get(x, a[e]) for e, x in enumerate(('dataset', 'k', 'algo'))]
        if g[0] is not d or g[2] is not algo or len(ctx.loop_idx) != 1:
            raise Unsupported('arguments of _kfold_scoring')
        ctx.oblige('the requested number of folds', num(g[1]) == k)
        i = num(ctx.loop_idx[0])
        return N.mk(ctx, (n,), lambda r: KS(i, num(r)), 'float')
    c.overrides[ST + '_kfold_scoring'] = one
    paths = v.run(lambda: c.call(v.func(ST + '_multi_kfold_scoring'), [d, algo], dict(L=L, k=k)))
    r, l = fresh('r'), fresh('l')
    for p in paths:
        if not no_raise(v, p):
            continue
        if not isinstance(p.val, Arr) or p.val.ndim != 2:
            v.fail('a matrix of scores is returned', str(p.val))
            continue
        v.check('one row per document, one column per repetition', z3.And(num(p.val.shape[0]) == n, num(p.val.shape[1]) == L), p.hyps)
        v.check('column l holds the scores of repetition l', z3.Implies(z3.And(r >= 0, r < n, l >= 0, l < L), real(v.in_state(p, lambda: p.val.get(r, l))) == KS(l, r)), p.hyps)


FS = opaque('FOLDSCORE', I, I, R)                 # call of the algorithm, row of its last argument


@unit('C28', 'statistical._kfold_scoring', weight=2)
def kfold_scoring(v):
    c = v.ctx
    d = dataset(v)
    s = d.sym
    off, nq, n = s['off'], s['nq'], s['n']
    k = v.int('k', 2)
    calls = []

    def algo(ctx, o, X, y, sizes, Xt):
        if len(ctx.loop_idx) != 1:
            raise Unsupported('call of the algorithm outside a loop over the folds')
        i = num(ctx.loop_idx[0])
        xs = [N.masked(a) if isinstance(a, Arr) else None for a in (X, y, sizes, Xt)]
        if any(m is None for m in xs):
            raise Unsupported('arguments that are not selections')
        if ctx.record:
            calls.append((i, list(ctx.pc), xs))
        m = num(Xt.shape[0])
        return N.mk(ctx, (m,), lambda r: FS(i, num(r)), 'float')
    paths = v.run(lambda: c.call(v.func(ST + '_kfold_scoring'), [d, k, Abstract('algo', {}, dict(call=algo))], {}))
    paths = [p for p in paths if no_raise(v, p)]
    if len(paths) != 1 or len(calls) != 1 or len(paths[0].ghost['permutations']) != 1:
        raise Unsupported('one loop over the folds of one permutation is expected')
    p = paths[0]
    S, T = p.ghost['permutations'][0][:2]
    size = -z3.ToInt(-(z3.ToReal(nq) / z3.ToReal(k)))      # ceil(n_queries / k)
    C = z3.Int('fold_size')
    quot = z3.Real('q')
    v.check('size of the folds', z3.And(size >= 1, (size - 1) * k < nq, size * k >= nq), [],
            plain=[nq >= 1, k >= 2, (z3.ToReal(nq) / z3.ToReal(k)) * z3.ToReal(k) == z3.ToReal(nq)])
    abst = lambda e: z3.substitute(z3.simplify(e), (z3.simplify(z3.ToInt(-(z3.ToReal(nq) / z3.ToReal(k)))), -C))
    i, pc, (X, y, sz, Xt) = calls[0]
    x, q = fresh('x'), fresh('q')
    quant = [f for f in c.axioms + list(c.pc) if z3.is_quantifier(f)]
    facts = [C >= 1, (C - 1) * k < nq, C * k >= nq, nq >= 1, n >= 1, k >= 2]
    inq = [q >= 0, q < nq, off(q) <= x, x < off(q + 1), x >= 0, x < n]
    inq += [z3.And(T(q) >= 0, T(q) < nq, S(T(q)) == q)]
    nf = z3.Int('n_folds')
    infold = [i >= 0, i * C < nq]
    group = z3.And(i * C <= T(q), T(q) < i * C + C)
    prod = z3.Int('i*C')
    lin = lambda e: z3.substitute(z3.simplify(e), (z3.simplify(i * C), prod))
    v.check('first query of a fold', i * C >= 0, [], plain=[i >= 0, C >= 1])
    nonneg_ = [i * C >= 0, prod >= 0]
    rng = lambda e: z3.Implies(z3.And(e >= 0, e < nq), z3.And(off(e) >= 0, off(e) < off(e + 1), off(e + 1) <= n))

    def mask_facts(m, qq):
        t = abst(m)
        out = []
        for r in reductions(t):
            if r.decl().name() == 'EXISTS':
                out += red_facts(r, [T(qq) - i * C])
                w = witness(r)
                z = S(i * C + w)
                # the query that the witness designates is the query of the document
                out += [rng(z), rng(qq)]
                out += [z3.Implies(z3.And(i * C + w >= 0, i * C + w < nq), z3.And(z >= 0, z < nq, T(z) == i * C + w,
                                   z3.Implies(z < qq, off(z + 1) <= off(qq)), z3.Implies(z > qq, off(qq + 1) <= off(z))))]
        return t, out
    for nm, (m, rd), goal in (('documents of the training set', X, z3.Not(group)), ('labels of the training set', y, z3.Not(group)), ('documents of the test set', Xt, group)):
        t, fs = mask_facts(m.mask(x), q)
        v.check('%s: exactly those of the queries of the fold%s' % (nm, '' if goal is group else ', complemented'), z3.And(m.n == n, lin(t) == lin(goal)), pc + facts + inq + infold + fs,
                plain=nonneg_ + [lin(f) for f in facts + inq + infold + fs] + [m.n == n])
    t, fs = mask_facts(sz[0].mask(q), q)
    v.check('query sizes of the training set: exactly the queries outside the fold', z3.And(sz[0].n == nq, lin(t) == lin(z3.Not(group))), pc + facts + inq + infold + fs,
            plain=nonneg_ + [lin(f) for f in facts + inq + infold + fs] + [sz[0].n == nq])
    f_ = fresh('f')
    v.check('rows passed are those of the dataset', z3.And(num(X[1](x, f_)) == num(s['X'](x, f_)), num(Xt[1](x, f_)) == num(s['X'](x, f_)), num(y[1](x)) == num(s['y'](x)),
                                                          num(sz[1](q)) == off(q + 1) - off(q)), pc + inq)
    # every document is scored once, in the fold of its query
    j = z3.Int('fold')
    val = abst(real(v.in_state(p, lambda: p.val.get(x))))
    lasts = [r for r in reductions(val) if r.decl().name() == 'LAST']
    if len(lasts) != 1:
        raise Unsupported('form of the scores')
    w = lasts[0]
    fold = [j * C <= T(q), T(q) < j * C + C, j >= 0]
    v.check('the folds cover the queries', z3.And(j >= 0, z3.Implies(z3.And(j == T(q) / C), z3.And(*fold)), j * C < nq), [], plain=[C >= 1, nq >= 1, T(q) >= 0, T(q) < nq, j == T(q) / C])
    test = lambda e: z3.substitute(abst(Xt[0].mask(x)), (i, e))
    is_test = lambda e: z3.Implies(z3.And(e >= 0, e * C < nq), test(e) == z3.And(e * C <= T(q), T(q) < e * C + C))     # proved above
    nfold = w.arg(1)
    v.check('number of folds', z3.And(j >= 0, j < nfold, z3.Implies(f_ < nfold, f_ * C < nq)), [], plain=facts + inq + fold)
    v.check('the scores that remain are those of the fold of the query', w == j, [],
            plain=facts + inq + fold + [j < nfold, j * C < nq, z3.Implies(w < nfold, w * C < nq), is_test(j), is_test(w)] + red_facts(w, [j]))
    same_test = apply_lam(w.arg(0), j) == test(j)
    v.check('the scores written are those of the documents passed to the algorithm', same_test, p.hyps)
    rank = z3.substitute(abst(Xt[0].rank(x)), (i, j))
    v.check('score of a document: the one returned by the algorithm for its row', z3.substitute(val, (w, j)) == FS(j, rank), [],
            plain=facts + inq + fold + [same_test, is_test(j), j < nfold, j * C < nq])
    # (by the contract of mask selection, row rank(x) of the rows passed is the row of document x)
