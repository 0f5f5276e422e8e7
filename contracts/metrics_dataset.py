"""C18 (evaluation of a dataset), C16 (dataset-level squared errors), C17 (rank correlations)."""
from contracts.common import *
import vcg.npmodel as N

CLASSES = ['precision.Precision', 'precision_max.PrecisionMax', 'recall.Recall', 'mrr.MRR', 'map.MAP', 'dcg.DCG', 'err.ERR',
           'pfound.Pfound', 'rbp.RBP', 'mse.MSE', 'rmse.RMSE', 'kendall_tau.Kendalltau', 'spearman_rho.SpearmanRho']
EVQ = opaque('EVQ', AIR, I, AIR, I, R)
NANMEAN = opaque('NANMEAN', AIR, I, R)


def evq(fa, n, fb, m):
    return EVQ(lam(lambda j: real(fa(j))), num(n), lam(lambda j: real(fb(j))), num(m))


def abstract_query_metric(v, qual):
    """contract of eval_per_query: the value is determined by the labels and the scores it is given"""
    def h(ctx, args, kw):
        self, a, b = args
        a, b = N.to_arr(ctx, a), N.to_arr(ctx, b)
        ctx.oblige('as many labels as scores', num(a.shape[0]) == num(b.shape[0]))
        return evq(a.frozen(), a.shape[0], b.frozen(), b.shape[0])
    v.ctx.overrides[qual + '.eval_per_query'] = h


def evaluation(cls, twice):
    def run(v):
        ctx = v.ctx
        d = dataset(v)
        S = d.sym
        yp = v.array('yp', S['n'])
        fp = yp.frozen()
        abstract_query_metric(v, MET + cls)
        m = v.new(MET + cls)
        mse = cls == 'mse.MSE'
        if twice:
            d2 = dataset(v, 'e')
            yp2 = v.array('yp2', d2.sym['n'])

        def go():
            r = ctx.call(ctx.getattr(m, 'eval'), [d, yp], {})
            if twice:
                ctx.call(ctx.getattr(m, 'eval'), [d2, yp2], {})
            return r

        def value(S, sc, q):
            s, e = S['off'](q), S['off'](q + 1)
            x = evq(lambda j: S['y'](s + num(j)), e - s, lambda j: sc(s + num(j)), e - s)
            return x / real(S['n']) if mse else x
        paths = v.run(go)
        for p in paths:
            if not no_raise(v, p):
                continue
            mean, det = p.val
            i = fresh('i')
            got = v.in_state(p, lambda: det.get(i))
            tag = ' (after another evaluation)' if twice else ''
            v.check('one value per query' + tag, num(det.shape[0]) == S['nq'], p.hyps)
            v.check('value k is that of the labels and scores of query k' + tag, z3.ForAll([i], z3.Implies(
                z3.And(i >= 0, i < S['nq']), real(got) == value(S, fp, i))), p.hyps)
            if not twice:
                j = fresh('j')
                agg = mk_sum(lambda j: value(S, fp, num(j)), S['nq']) if mse else \
                    NANMEAN(lam(lambda j: value(S, fp, num(j))), S['nq'])
                v.check('overall value is the %s of the values' % ('sum' if mse else 'mean ignoring undefined values'), real(mean) == agg, p.hyps)
        if not twice:
            unchanged(v, paths, [('labels', d.attrs['y'], S['y']), ('scores', yp, fp), ('features', d.attrs['X'], S['X']),
                                 ('query offsets', d.attrs['query_offsets'], S['off']), ('query ids', d.attrs['query_ids'], S['ids'])])
    return run


for _cls in CLASSES:
    props = ['C18'] + (['C16'] if _cls in ('mse.MSE', 'rmse.RMSE') else []) + (['C17'] if 'kendall' in _cls or 'spearman' in _cls else [])
    unit(props, _cls + '.eval', weight=2)(evaluation(_cls, False))
    unit(['C18'], _cls + '.eval[followed by another evaluation]', weight=3)(evaluation(_cls, True))


# -- rank correlations: the coefficient comes from scipy (assumed contract), of the two vectors as given ----------------------
def correlation(cls, sym):
    def run(v):
        n = v.int('n', 1)
        y, yp = v.array('y', n), v.array('yp', n)
        fy, fp = y.frozen(), yp.frozen()
        f = opaque(sym, AIR, I, AIR, I, R)
        m = v.new(MET + cls)
        paths = v.run(lambda: v.ctx.call(v.ctx.getattr(m, 'eval_per_query'), [y, yp], {}))
        coef = lambda a, b: f(lam(lambda j: real(a(j))), n, lam(lambda j: real(b(j))), n)
        sym_axiom = coef(fy, fp) == coef(fp, fy)          # both coefficients are symmetric
        for p in paths:
            if no_raise(v, p):
                v.check('coefficient of the labels and the scores of the query', real(p.val) == coef(fy, fp), p.hyps + [sym_axiom])
        unchanged(v, paths, [('labels', y, fy), ('scores', yp, fp)])
    return run


unit('C17', 'kendall_tau.Kendalltau.eval_per_query')(correlation('kendall_tau.Kendalltau', 'kendalltau'))
unit('C17', 'spearman_rho.SpearmanRho.eval_per_query')(correlation('spearman_rho.SpearmanRho', 'spearmanr'))
