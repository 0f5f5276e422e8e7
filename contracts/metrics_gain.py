"""C14 (DCG, NDCG), C15 (ERR, Pfound, RBP), C16 (squared errors): one query of any size, labels, scores, cutoff."""
from contracts.common import *
from contracts.metrics_setbased import setup


def gain(impl, x):
    return x if impl == 'flat' else EXP2(real(x)) - 1


def dcg_spec(impl, f, rho, K):
    return mk_sum(lambda r: real(gain(impl, f(rho(r)))) / LOG2(real(num(r) + 2)), K)


def dcg(impl, cutoff):
    def run(v):
        n, y, yp, c, K = setup(v, cutoff)
        m = v.new(MET + 'dcg.DCG', cutoff=c, implementation=impl)
        fy, fp = y.frozen(), yp.frozen()
        paths = v.run(lambda: v.ctx.call(v.ctx.getattr(m, 'eval_per_query'), [y, yp], {}))
        ranked_post(v, paths, n, lambda d: fp(d), lambda rho: dcg_spec(impl, fy, rho, K), 'result is the DCG of the ranked documents')
        unchanged(v, paths, [('labels', y, fy), ('scores', yp, fp)])
    return run


for _i in ('flat', 'exp'):
    for _c in (False, True):
        unit('C14', 'dcg.DCG.eval_per_query[%s,%s]' % (_i, 'cutoff' if _c else 'no cutoff'))(dcg(_i, _c))


DCGQ = opaque('DCGQ', AIR, I, AIR, I, R)


def dcgq(fa, n, fb, m):
    return DCGQ(lam(lambda j: real(fa(j))), num(n), lam(lambda j: real(fb(j))), num(m))


def dcg_contract(v, impl, c):
    """contract of DCG.eval_per_query: a value determined by the labels and the scores of the query (shown equal to the
    definition by the units above), for the cutoff and implementation of the object"""
    def h(ctx, args, kw):
        self, a, b = args
        import vcg.npmodel as N
        a, b = N.to_arr(ctx, a), N.to_arr(ctx, b)
        cut = self.attrs.get('cutoff')
        ok = (cut is None and c is None) or (cut is not None and c is not None and same(cut, c))
        ctx.oblige('DCG object has the cutoff and implementation of the NDCG', ok and self.attrs.get('implementation') == impl)
        ctx.oblige('DCG is called on as many labels as scores', num(a.shape[0]) == num(b.shape[0]))
        return dcgq(a.frozen(), a.shape[0], b.frozen(), b.shape[0])
    v.ctx.overrides[MET + 'dcg.DCG.eval_per_query'] = h


def ndcg_value(nrr, d, ideal):
    return z3.If(ideal == 0, nrr, d / ideal)


def ndcg_query(impl, cutoff):
    """a query evaluated on its own (no evaluation of a dataset in progress), whatever the caches contain"""
    def run(v):
        n, y, yp, c, K = setup(v, cutoff)
        nrr = v.real('nrr')
        dcg_contract(v, impl, c)
        m = v.new(MET + 'ndcg.NDCG', cutoff=c, no_relevant_results=nrr, implementation=impl)
        fy, fp = y.frozen(), yp.frozen()
        paths = v.run(lambda: v.ctx.call(v.ctx.getattr(m, 'eval_per_query'), [y, yp], {}))
        for p in paths:
            if no_raise(v, p):
                v.check('NDCG is DCG over ideal DCG, or the configured value', real(p.val) == ndcg_value(
                    nrr, dcgq(fy, n, fp, n), dcgq(fy, n, fy, n)), p.hyps)
    return run


def ndcg_whole(impl, cutoff):
    """all of it inlined: the value of a query is the DCG of the ranking by score over that of the ranking by label"""
    def run(v):
        n, y, yp, c, K = setup(v, cutoff)
        nrr = v.real('nrr')
        m = v.new(MET + 'ndcg.NDCG', cutoff=c, no_relevant_results=nrr, implementation=impl)
        fy, fp = y.frozen(), yp.frozen()
        paths = v.run(lambda: v.ctx.call(v.ctx.getattr(m, 'eval_per_query'), [y, yp], {}))
        for p in paths:
            if not no_raise(v, p):
                continue
            alts = []
            for l1, rho, inv in rankings(p, n):
                for l2, sig, inv2 in rankings(p, n):
                    goals = [(g, p.hyps, []) for g in is_ranking(rho, inv, n, lambda d: fp(d)) + is_ranking(sig, inv2, n, lambda d: fy(d))]
                    goals.append((real(p.val) == ndcg_value(nrr, dcg_spec(impl, fy, rho, K), dcg_spec(impl, fy, sig, K)), p.hyps, []))
                    alts.append((l1 + ' / ' + l2, goals))
            v.check_any('NDCG is the DCG of the ranking by score over the DCG of the ranking by label', alts)
        unchanged(v, paths, [('labels', y, fy), ('scores', yp, fp)])
    return run


def ndcg_dataset(impl, cutoff, cached):
    """NDCG.eval on a dataset: every query gets its own ideal DCG, from a fresh computation or from the cache of a dataset of
    equal content; the object is left able to evaluate single queries and datasets again"""
    def run(v):
        ctx = v.ctx
        d = dataset(v)
        S = d.sym
        yp = v.array('yp', S['n'])
        fp = yp.frozen()
        c = v.int('cutoff', 1) if cutoff else None
        nrr = v.real('nrr')
        dcg_contract(v, impl, c)
        m = v.new(MET + 'ndcg.NDCG', cutoff=c, no_relevant_results=nrr, implementation=impl)
        def q_dcg(q, sc):
            s, e = S['off'](q), S['off'](q + 1)
            return dcgq(lambda j: S['y'](s + num(j)), e - s, lambda j: sc(s + num(j)), e - s)
        cache = Abstract('cache of ideal DCGs')
        st = Obj(ctx, None, {'mem': 'yes' if cached else 'no', 'val': None})
        if cached:
            arr = v.array('cached_idcg', S['nq'])
            fa = arr.frozen()
            i = fresh('i')
            # cache invariant: an entry found under a dataset holds the ideal DCGs of the queries of a dataset equal to it
            ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < S['nq']), fa(i) == q_dcg(i, S['y'])), patterns=[fa(i)]))
            st.attrs['val'] = arr

        def chk(key):
            if key is not d:
                raise Unsupported('cache accessed with another key')

        def contains(c_, o, key):
            chk(key)
            return st.attrs['mem'] == 'yes'

        def getitem(c_, o, key):
            chk(key)
            if st.attrs['mem'] != 'yes':
                return 0          # defaultdict(int)
            return st.attrs['val']

        def setitem(c_, o, key, val):
            chk(key)
            st.attrs.update(mem='yes', val=val)
        cache.methods.update(contains=contains, getitem=getitem, setitem=setitem,
                             get=Builtin('get', None))
        m.attrs['_cache_idcg_score'] = cache
        old = m.attrs['_current_rel_qid']
        paths = v.run(lambda: ctx.call(ctx.getattr(m, 'eval'), [d, yp], {}))
        for p in paths:
            if not no_raise(v, p):
                continue
            mean, det = p.val
            i = fresh('i')
            got = v.in_state(p, lambda: det.get(i))
            v.check('one value per query', num(det.shape[0]) == S['nq'], p.hyps)
            v.check('each query has its own NDCG', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < S['nq']), real(got) == ndcg_value(
                nrr, q_dcg(i, fp), q_dcg(i, S['y'])))), p.hyps)
            after = v.in_state(p, lambda: (m.attrs['_current_rel_qid'], st.attrs['val'], st.attrs['mem']))
            v.check('single queries are evaluated on their own afterwards', after[0] is None, p.hyps)
            val = after[1]
            if after[2] == 'yes':
                if not isinstance(val, Arr):
                    v.fail('cache invariant', 'the entry is not an array')
                else:
                    g = v.in_state(p, lambda: val.get(i))
                    v.check('cache invariant: the entry holds the ideal DCGs of the dataset', z3.And(
                        num(val.shape[0]) == S['nq'],
                        z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < S['nq']), real(g) == q_dcg(i, S['y'])))), p.hyps)
                if isinstance(val, Arr) and isinstance(det, Arr) and val.buf is det.buf:
                    v.fail('returned scores do not alias the cache', 'same array')
    return run


for _i in ('flat', 'exp'):
    for _c in (False, True):
        _n = '%s,%s' % (_i, 'cutoff' if _c else 'no cutoff')
        unit('C14', 'ndcg.NDCG.eval_per_query[%s]' % _n)(ndcg_query(_i, _c))
        unit('C14', 'ndcg.NDCG.eval_per_query with DCG.eval_per_query[%s]' % _n)(ndcg_whole(_i, _c))
        for _k in (False, True):
            unit(['C14', 'C18', 'C19'], 'ndcg.NDCG.eval[%s,%s]' % (_n, 'cached' if _k else 'not cached'), weight=3)(ndcg_dataset(_i, _c, _k))


# -- cascade metrics -------------------------------------------------------------------------------------------------------
def stop_at(fy, mx, rho, r):
    """probability of stopping exactly at position r: u(r) times the product of the (1 - u) before"""
    u = lambda q: (EXP2(real(fy(rho(q)))) - 1) / EXP2(real(mx))
    return u(num(r)) * mk_prod(lambda q: 1 - u(num(q)), num(r))


def cascade(kind, cutoff):
    def run(v):
        n, y, yp, c, K = setup(v, cutoff)
        fy, fp = y.frozen(), yp.frozen()
        mx = mk_max(lambda i: fy(i), n)
        if kind == 'ERR':
            m = v.new(MET + 'err.ERR', cutoff=c)
            spec = lambda rho: mk_sum(lambda r: stop_at(fy, mx, rho, r) / real(num(r) + 1), K)
        elif kind == 'Pfound':
            pa = v.real('p_abandonment')
            m = v.new(MET + 'pfound.Pfound', cutoff=c, p_abandonment=pa)
            spec = lambda rho: mk_sum(lambda r: stop_at(fy, mx, rho, r) * POW(pa, num(r)), K)
        else:
            pp, t = v.real('p'), v.real('threshold')
            m = v.new(MET + 'rbp.RBP', cutoff=c, threshold=t, p=pp)
            spec = lambda rho: (1 - pp) * mk_sum(lambda r: z3.If(fy(rho(r)) >= t, POW(pp, num(r)), z3.RealVal(0)), K)
        paths = v.run(lambda: v.ctx.call(v.ctx.getattr(m, 'eval_per_query'), [y, yp], {}))
        ranked_post(v, paths, n, lambda d: fp(d), spec)
        unchanged(v, paths, [('labels', y, fy), ('scores', yp, fp)])
    return run


for _k, _q in (('ERR', 'err.ERR'), ('Pfound', 'pfound.Pfound'), ('RBP', 'rbp.RBP')):
    for _c in (False, True):
        unit('C15', '%s.eval_per_query[%s]' % (_q, 'cutoff' if _c else 'no cutoff'))(cascade(_k, _c))


# -- squared errors ----------------------------------------------------------------------------------------------------------
def sqerr(kind, cutoff):
    def run(v):
        n, y, yp, c, K = setup(v, cutoff)
        fy, fp = y.frozen(), yp.frozen()
        m = v.new(MET + ('mse.MSE' if kind == 'MSE' else 'rmse.RMSE'), cutoff=c)
        root = (lambda x: SQRT(x)) if kind == 'RMSE' else (lambda x: x)
        sq = lambda d: (real(fy(d)) - real(fp(d))) * (real(fy(d)) - real(fp(d)))
        paths = v.run(lambda: v.ctx.call(v.ctx.getattr(m, 'eval_per_query'), [y, yp], {}))
        if cutoff:
            ranked_post(v, paths, n, lambda d: fp(d), lambda rho: root(mk_sum(lambda r: sq(rho(num(r))), K)),
                        'result is the squared error of the retrieved documents')
        else:
            for p in paths:
                if no_raise(v, p):
                    v.check('result is the squared error of the query', real(p.val) == root(mk_sum(lambda d: sq(num(d)), n)), p.hyps)
        unchanged(v, paths, [('labels', y, fy), ('scores', yp, fp)])
    return run


for _k, _q in (('MSE', 'mse.MSE'), ('RMSE', 'rmse.RMSE')):
    for _c in (False, True):
        unit('C16', '%s.eval_per_query[%s]' % (_q, 'cutoff' if _c else 'no cutoff'))(sqerr(_k, _c))
