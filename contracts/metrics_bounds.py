"""C19: bounds of the ranking metrics and optimality of ideal rankings.

The code's value is first shown to be a term of the definitions (as in C13-C15) and then bounded by lemmas: induction on the
number of terms, and two lemma schemata of finite sums (Lean: Schemata.sum_perm, Schemata.rearrangement), whose side
conditions are obligations."""
from contracts.common import *
from contracts.metrics_setbased import setup
from contracts.metrics_gain import dcg_spec, stop_at, gain


def perm_sum(f, rho, n):
    """sum of f over the ranks = sum of f over the documents (side condition: rho is a permutation of [0, n))"""
    return mk_sum(lambda r: f(rho(r)), n) == mk_sum(lambda d: f(num(d)), n)


def bounded(v, paths, n, key, spec, lemmas, name='between 0 and 1'):
    """lemmas(rho) -> list of (label, goal): proved in order, each with the earlier ones as hypotheses, or ('schema', fact)"""
    for p in paths:
        if not no_raise(v, p):
            continue
        alts = []
        for lab, rho, inv in rankings(p, n):
            goals = [(g, p.hyps, []) for g in is_ranking(rho, inv, n, key)]
            s = real(spec(rho))
            goals.append((real(p.val) == s, p.hyps, []))
            known = []
            small = [h for h in p.hyps if not z3.is_quantifier(h) and not reductions(h)]
            for l, g in lemmas(rho, inv):
                if l != 'schema':
                    goals.append((g, p.hyps, list(known), small))
                known.append(g)
            goals.append((z3.And(s >= 0, s <= 1), p.hyps, list(known), small))
            alts.append((lab, goals))
        v.check_any(name, alts)


def nonneg(v, y, n):
    f0 = y.frozen()
    i = fresh('i')
    v.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), f0(i) >= 0), patterns=[f0(i)]))


def unit_interval(v, *xs):
    for x in xs:
        v.ctx.assume(x >= 0, x <= 1)


# -- lemmas over arbitrary sequences, proved by induction in units of their own and applied below ("schema") ------------------
def ap_sum(b, k):
    return mk_sum(lambda r: z3.If(b(num(r)), real(count(lambda q: b(num(q)), num(r) + 1)) / real(num(r) + 1), z3.RealVal(0)), k)


def cascade_sum(u, w, k):
    return mk_sum(lambda r: u(num(r)) * mk_prod(lambda q: 1 - u(num(q)), num(r)) * w(num(r)), k)


def geo_sum(b, p, k):
    return mk_sum(lambda r: z3.If(b(num(r)), POW(p, num(r)), z3.RealVal(0)), k)


def by_induction(v, name, P, step_hyps=(), k=None):
    """P(0) and P(k) => P(k + 1) for every k >= 0"""
    k = fresh('k') if k is None else k
    v.check(name + ': base', P(z3.IntVal(0)), [])
    v.check(name + ': step', P(k + 1), [k >= 0, P(k)] + list(step_hyps))


@unit('C19', 'lemma: precision at the relevant ranks')
def _(v):
    b = z3.Function('b', I, B)
    k = z3.Int('k')
    C = lambda n: count(lambda q: b(num(q)), n)
    v.check('count at most k', z3.And(C(k + 1) >= 0, C(k + 1) <= k + 1), [k >= 0])
    by_induction(v, 'between 0 and the count', lambda n: z3.And(ap_sum(b, n) >= 0, ap_sum(b, n) <= real(C(n))),
                 [C(k + 1) >= 0, C(k + 1) <= k + 1, z3.And(real(C(k + 1)) / real(k + 1) >= 0, real(C(k + 1)) / real(k + 1) <= 1)], k)
    x = z3.Int('x')
    v.check('ratio', z3.And(real(x) / real(k + 1) >= 0, real(x) / real(k + 1) <= 1), [k >= 0, x >= 0, x <= k + 1])


@unit('C19', 'lemma: stopping probabilities')
def _(v):
    u, w = z3.Function('u', I, R), z3.Function('w', I, R)
    k = z3.Int('k')
    prob = [u(k) >= 0, u(k) <= 1, w(k) >= 0, w(k) <= 1]
    P = lambda n: mk_prod(lambda q: 1 - u(num(q)), n)
    T = lambda n: mk_sum(lambda r: u(num(r)) * mk_prod(lambda q: 1 - u(num(q)), num(r)), n)
    S = lambda n: cascade_sum(u, w, n)
    by_induction(v, 'product of complements in [0, 1]', lambda n: z3.And(P(n) >= 0, P(n) <= 1), prob, k)
    # unfold the sums once, then arithmetic
    v.check('last term of the stopping sum', T(k + 1) == T(k) + u(k) * P(k), [k >= 0])
    v.check('last factor', P(k + 1) == P(k) * (1 - u(k)), [k >= 0])
    v.check('last term of the weighted sum', S(k + 1) == S(k) + u(k) * P(k) * w(k), [k >= 0])
    t, p, a, t1, p1, s, s1, ww = z3.Reals('t p a t1 p1 s s1 ww')
    v.check('stopping sum = 1 - product: base', T(z3.IntVal(0)) == 1 - P(z3.IntVal(0)), [])
    v.check('stopping sum = 1 - product: step', t1 == 1 - p1, [t == 1 - p, t1 == t + a * p, p1 == p * (1 - a)])
    v.check('weighted sum between 0 and the stopping sum: base', z3.And(S(z3.IntVal(0)) >= 0, S(z3.IntVal(0)) <= T(z3.IntVal(0))), [])
    x = z3.Real('x')
    v.check('weighted term', z3.And(x * ww >= 0, x * ww <= x), [x >= 0, ww >= 0, ww <= 1])
    v.check('weighted sum between 0 and the stopping sum: step', z3.And(s1 >= 0, s1 <= t1),
            [s >= 0, s <= t, t1 == t + x, s1 == s + x * ww, x * ww >= 0, x * ww <= x])
    v.check('term non-negative', a * p >= 0, [a >= 0, p >= 0])
    v.check('conclusion', z3.And(s >= 0, s <= 1), [s >= 0, s <= t, t == 1 - p, p >= 0])


@unit('C19', 'lemma: geometric weights')
def _(v):
    b = z3.Function('b', I, B)
    k, p = z3.Int('k'), z3.Real('p')
    S = lambda n: geo_sum(b, p, n)
    hy = [k >= 0, p >= 0, p <= 1]
    v.check('last term', S(k + 1) == S(k) + z3.If(b(k), POW(p, k), 0), hy)
    s, s1, w, w1 = z3.Reals('s s1 w w1')
    c = z3.Bool('c')
    v.check('base', z3.And(S(z3.IntVal(0)) >= 0, (1 - p) * S(z3.IntVal(0)) <= 1 - POW(p, z3.IntVal(0))), hy)
    # power recurrence: p^(k+1) = p * p^k
    v.check('step', z3.And(s1 >= 0, (1 - p) * s1 <= 1 - w1),
            [p >= 0, p <= 1, w >= 0, w1 == p * w, s >= 0, (1 - p) * s <= 1 - w, s1 == s + z3.If(c, w, 0), (1 - p) * w >= 0])
    v.check('conclusion', z3.And((1 - p) * s >= 0, (1 - p) * s <= 1), [p >= 0, p <= 1, w >= 0, s >= 0, (1 - p) * s <= 1 - w])


def metric(kind, cutoff):
    def run(v):
        n, y, yp, c, K = setup(v, cutoff)
        nonneg(v, y, n)
        fy, fp = y.frozen(), yp.frozen()
        t, nrr, pr = v.real('threshold'), v.real('nrr'), v.real('p')
        unit_interval(v, nrr, pr)
        rel = lambda d: fy(d) >= t
        one = lambda b: z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if kind == 'precision.Precision':
            m = v.new(MET + kind, cutoff=c, threshold=t)
            spec = lambda rho: real(count(lambda r: rel(rho(r)), K)) / real(K)
            lem = lambda rho, inv: [('count', z3.And(count(lambda r: rel(rho(r)), K) >= 0, count(lambda r: rel(rho(r)), K) <= K))]
        elif kind == 'precision_max.PrecisionMax':
            m = v.new(MET + kind, cutoff=c)
            t = mk_max(lambda i: fy(i), n)
            spec = lambda rho: real(count(lambda r: rel(rho(r)), K)) / real(K)
            lem = lambda rho, inv: [('count', z3.And(count(lambda r: rel(rho(r)), K) >= 0, count(lambda r: rel(rho(r)), K) <= K))]
        elif kind == 'recall.Recall':
            m = v.new(MET + kind, cutoff=c, threshold=t, no_relevant_results=nrr)
            tot = count(lambda d: rel(d), n)
            spec = lambda rho: z3.If(tot == 0, nrr, real(count(lambda r: rel(rho(r)), K)) / real(tot))
            lem = lambda rho, inv: [('schema', perm_sum(lambda d: one(rel(d)), rho, n)),
                                    ('retrieved', count(lambda r: rel(rho(r)), K) <= count(lambda r: rel(rho(r)), n)),
                                    ('count', z3.And(count(lambda r: rel(rho(r)), K) >= 0, count(lambda r: rel(rho(r)), K) <= tot)),
                                    ('ratio', z3.Implies(tot != 0, z3.And(real(count(lambda r: rel(rho(r)), K)) / real(tot) >= 0, real(count(lambda r: rel(rho(r)), K)) / real(tot) <= 1)))]
        elif kind == 'mrr.MRR':
            m = v.new(MET + kind, cutoff=c, threshold=t)

            def spec(rho):
                first = mk_first(lambda r: rel(rho(r)), K)
                return z3.If(first < K, 1 / real(first + 1), z3.RealVal(0))
            lem = lambda rho, inv: []
        elif kind == 'map.MAP':
            m = v.new(MET + kind, cutoff=c, no_relevant_results=nrr)
            pos = lambda d: fy(d) > 0
            tot = count(lambda d: pos(d), n)

            def spec(rho):
                return z3.If(tot == 0, nrr, ap_sum(lambda q: pos(rho(q)), K) / real(z3.If(K <= tot, K, tot)))

            def lem(rho, inv):
                C = lambda k: count(lambda r: pos(rho(r)), k)
                S = ap_sum(lambda q: pos(rho(q)), K)
                return [('schema', perm_sum(lambda d: one(pos(d)), rho, n)), ('retrieved', C(K) <= C(n)),
                        ('most', z3.And(C(K) <= K, C(K) >= 0, C(K) <= tot)),
                        ('schema', z3.And(S >= 0, S <= real(C(K))))]
        elif kind == 'err.ERR' or kind == 'pfound.Pfound':
            mx = mk_max(lambda i: fy(i), n)
            u = lambda rho, q: (EXP2(real(fy(rho(num(q))))) - 1) / EXP2(real(mx))
            if kind == 'err.ERR':
                m = v.new(MET + kind, cutoff=c)
                w = lambda r: 1 / (real(num(r)) + 1)
            else:
                m = v.new(MET + kind, cutoff=c, p_abandonment=pr)
                w = lambda r: POW(pr, num(r))
            spec = lambda rho: cascade_sum(lambda q: u(rho, q), w, K)

            def lem(rho, inv):
                q = fresh('q')
                S = cascade_sum(lambda x: u(rho, x), w, K)
                return [('probability', z3.Implies(z3.And(q >= 0, q < K), z3.And(u(rho, q) >= 0, u(rho, q) <= 1))),
                        ('weight', z3.Implies(z3.And(q >= 0, q < K), z3.And(w(q) >= 0, w(q) <= 1))),
                        ('schema', z3.And(S >= 0, S <= 1))]
        elif kind == 'rbp.RBP':
            m = v.new(MET + kind, cutoff=c, threshold=t, p=pr)
            spec = lambda rho: (1 - pr) * geo_sum(lambda r: rel(rho(num(r))), pr, K)

            def lem(rho, inv):
                S = geo_sum(lambda r: rel(rho(num(r))), pr, K)
                return [('schema', z3.And((1 - pr) * S >= 0, (1 - pr) * S <= 1))]
        paths = v.run(lambda: v.ctx.call(v.ctx.getattr(m, 'eval_per_query'), [y, yp], {}))
        bounded(v, paths, n, lambda d: fp(d), spec, lem)
    return run


for _k in ('precision.Precision', 'precision_max.PrecisionMax', 'recall.Recall', 'mrr.MRR', 'map.MAP', 'err.ERR', 'pfound.Pfound', 'rbp.RBP'):
    for _c in (False, True):
        unit('C19', '%s.eval_per_query bounds[%s]' % (_k, 'cutoff' if _c else 'no cutoff'))(metric(_k, _c))


def ndcg_bounds(impl, cutoff, ideal):
    def run(v):
        n, y, yp, c, K = setup(v, cutoff)
        nonneg(v, y, n)
        fy = y.frozen()
        nrr = v.real('nrr')
        unit_interval(v, nrr)
        fp = fy if ideal == 'labels' else yp.frozen()
        if ideal:
            # scores ordered like the labels: a ranking by decreasing score is one by decreasing label; some label positive
            i, j = fresh('i'), fresh('j')
            if ideal == 'ordered':
                v.ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n, fp(i) >= fp(j)), fy(i) >= fy(j)),
                                       patterns=[z3.MultiPattern(fp(i), fp(j))]))
            w = v.int('relevant', 0)
            v.ctx.assume(w < n, fy(w) > 0)
        m = v.new(MET + 'ndcg.NDCG', cutoff=c, no_relevant_results=nrr, implementation=impl)
        paths = v.run(lambda: v.ctx.call(v.ctx.getattr(m, 'eval_per_query'), [y, y if ideal == 'labels' else yp], {}))
        g = lambda d: real(gain(impl, fy(d)))
        for p in paths:
            if not no_raise(v, p):
                continue
            alts = []
            for l1, rho, inv in rankings(p, n):
                for l2, sig, inv2 in rankings(p, n):
                    goals = [(x, p.hyps, []) for x in is_ranking(rho, inv, n, lambda d: fp(d)) + is_ranking(sig, inv2, n, lambda d: fy(d))]
                    D, I_ = dcg_spec(impl, fy, rho, K), dcg_spec(impl, fy, sig, K)
                    val = z3.If(I_ == 0, nrr, D / I_)
                    goals.append((real(p.val) == val, p.hyps, []))
                    a, b = fresh('a'), fresh('b')
                    # side conditions of the rearrangement schema: gains non-negative and decreasing along sig, positive decreasing discounts
                    side = [z3.Implies(z3.And(a >= 0, a < n), g(a) >= 0),
                            z3.Implies(z3.And(a >= 0, a < b, b < n), g(sig(a)) >= g(sig(b))),
                            z3.Implies(a >= 0, LOG2(real(a + 2)) > 0),
                            z3.Implies(z3.And(a >= 0, a < b), LOG2(real(a + 2)) <= LOG2(real(b + 2)))]
                    goals += [(x, p.hyps, []) for x in side]
                    schema = [D <= I_]
                    q = fresh('q')
                    pos = [z3.Implies(z3.And(q >= 0, q < n), g(rho(q)) / LOG2(real(q + 2)) >= 0)]
                    goals += [(x, p.hyps, []) for x in pos]
                    goals.append((D >= 0, p.hyps, []))
                    goals.append((I_ >= 0, p.hyps, []))
                    signs = [D >= 0, I_ >= 0]
                    if ideal:
                        goals += [(z3.Implies(z3.And(a >= 0, a < b, b < n), g(rho(a)) >= g(rho(b))), p.hyps, [])]
                        # the first retrieved document is relevant
                        first = g(sig(z3.IntVal(0))) > 0
                        goals += [(first, p.hyps + [sig(inv2(w)) == w, inv2(w) >= 0], [])]
                        D1 = dcg_spec(impl, fy, sig, z3.IntVal(1))
                        goals.append((D1 > 0, p.hyps, [first, LOG2(real(z3.IntVal(2))) == 1]))
                        goals.append((I_ >= D1, p.hyps, []))
                        schema += [I_ <= D, I_ >= D1, D1 > 0]
                        goals.append((val == 1, p.hyps, schema))
                    else:
                        goals.append((z3.And(val >= 0, val <= 1), p.hyps, schema + signs))
                    alts.append((l1 + ' / ' + l2, goals))
            v.check_any('NDCG of an ideal ranking is 1' if ideal else 'between 0 and 1', alts)
    return run


for _i in ('flat', 'exp'):
    for _c in (False, True):
        for _d in (None, 'labels', 'ordered'):
            unit('C19', 'ndcg.NDCG.eval_per_query %s[%s,%s]' % ('bounds' if not _d else 'ideal ' + _d, _i, 'cutoff' if _c else 'no cutoff'),
                 weight=2)(ndcg_bounds(_i, _c, _d))
