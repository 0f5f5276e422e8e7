"""C13: set-based metrics.  For every query (any n >= 1), labels, scores, cutoff >= 1 or none, threshold."""
from contracts.common import *


def setup(v, cutoff):
    n = v.int('n', 1)
    y, yp = v.array('y', n), v.array('yp', n)
    if cutoff:
        c = v.int('cutoff', 1)
        K = z3.If(c <= n, c, n)
    else:
        c, K = None, n
    return n, y, yp, c, K


def frac_metric(cls, cutoff):
    def run(v):
        n, y, yp, c, K = setup(v, cutoff)
        t = v.real('t')
        kw = {'cutoff': c}
        if cls == 'recall.Recall':
            nrr = v.real('nrr')
            m = v.new(MET + cls, no_relevant_results=nrr, threshold=t, **kw)
        elif cls in ('precision.Precision', 'mrr.MRR'):
            m = v.new(MET + cls, threshold=t, **kw)
        else:
            m = v.new(MET + cls, **kw)
        if cls == 'precision_max.PrecisionMax':
            t = mk_max(lambda i: y.get(i), n)
        f0y, f0p = y.frozen(), yp.frozen()
        rel = lambda d: f0y(d) >= t
        paths = v.run(lambda: v.ctx.call(v.ctx.getattr(m, 'eval_per_query'), [y, yp], {}))
        if cls in ('precision.Precision', 'precision_max.PrecisionMax'):
            spec = lambda rho: real(count(lambda r: rel(rho(r)), K)) / real(K)
        elif cls == 'recall.Recall':
            tot = count(lambda d: rel(d), n)
            spec = lambda rho: z3.If(tot == 0, nrr, real(count(lambda r: rel(rho(r)), K)) / real(tot))
        else:
            def spec(rho):
                first = mk_first(lambda r: rel(rho(r)), K)
                return z3.If(first < K, 1 / real(first + 1), z3.RealVal(0))
        ranked_post(v, paths, n, lambda d: f0p(d), spec)
        unchanged(v, paths, [('labels', y, f0y), ('scores', yp, f0p)])
    return run


for _cls in ('precision.Precision', 'recall.Recall', 'mrr.MRR', 'precision_max.PrecisionMax'):
    for _c in (False, True):
        unit('C13', '%s.eval_per_query[%s]' % (_cls, 'cutoff' if _c else 'no cutoff'))(frac_metric(_cls, _c))


def map_metric(cutoff):
    def run(v):
        n, y, yp, c, K = setup(v, cutoff)
        i = fresh('i')
        f0, f0p = y.frozen(), yp.frozen()
        v.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), f0(i) >= 0), patterns=[f0(i)]))
        nrr = v.real('nrr')
        m = v.new(MET + 'map.MAP', cutoff=c, no_relevant_results=nrr)
        paths = v.run(lambda: v.ctx.call(v.ctx.getattr(m, 'eval_per_query'), [y, yp], {}))
        tot = count(lambda d: f0(d) > 0, n)

        def spec(rho):
            ap = mk_sum(lambda r: z3.If(f0(rho(r)) > 0, real(count(lambda q: f0(rho(q)) > 0, r + 1)) / real(r + 1), z3.RealVal(0)), K)
            return z3.If(tot == 0, nrr, ap / real(z3.If(K <= tot, K, tot)))
        ranked_post(v, paths, n, lambda d: f0p(d), spec)
        unchanged(v, paths, [('labels', y, f0), ('scores', yp, f0p)])
    return run


for _c in (False, True):
    unit('C13', 'map.MAP.eval_per_query[%s]' % ('cutoff' if _c else 'no cutoff'))(map_metric(_c))
