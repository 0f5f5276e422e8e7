"""C06-C10: Dataset."""
from contracts.common import *
import vcg.npmodel as N

DS = 'rankeval.dataset.dataset.Dataset'


def groups(v, n, name='g', distinct=True):
    """n instances in contiguous groups: group g of G is [off(g), off(g+1)), grp(j) is the group of instance j"""
    c = v.ctx
    G = v.int(name + '.G', 1)
    off, ids, grp = fresh_fun(name + '.off', I, I), fresh_fun(name + '.ids', I, I), fresh_fun(name + '.grp', I, I)
    i, j = fresh('i'), fresh('j')
    c.assume(off(0) == 0, off(G) == n)
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j <= G), off(i) < off(j)), patterns=[z3.MultiPattern(off(i), off(j))]))
    c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < G), z3.And(off(i) >= 0, off(i) < n, off(i) < off(i + 1), grp(off(i)) == i)), patterns=[off(i)]))
    c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(grp(j) >= 0, grp(j) < G, off(grp(j)) <= j, j < off(grp(j) + 1))), patterns=[grp(j)]))
    if distinct:
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < G, j >= 0, j < G, i != j), ids(i) != ids(j)), patterns=[z3.MultiPattern(ids(i), ids(j))]))
    return G, off, ids, grp


@unit(['C06', 'C07', 'C09'], 'dataset.Dataset.__init__', weight=3)
def init(v):
    n, nf = v.int('n', 1), v.int('nf', 1)
    X, y, q = v.array('X', (n, nf)), v.array('y', n), v.array('qids', n, 'int')
    fq, fX, fy = q.frozen(), X.frozen(), y.frozen()
    G, off, ids, grp = groups(v, n)
    j = fresh('j')
    v.ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), fq(j) == ids(grp(j))), patterns=[fq(j)]))
    paths = v.run(lambda: v.ctx.call(v.cls(DS), [X, y, q], {}))
    i = fresh('i')
    # the induction, once and for all
    A, to, bk = fresh_fun('A', I, I), fresh_fun('to', I, I), fresh_fun('bk', I, I)
    M = fresh('M')
    j2 = fresh('j')
    inc = lambda f, m: z3.ForAll([i, j2], z3.Implies(z3.And(i >= 0, i < j2, j2 < m), f(i) < f(j2)), patterns=[z3.MultiPattern(f(i), f(j2))])
    rng = lambda f, m, g, k, t: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(t(i) >= 0, t(i) < k, g(t(i)) == f(i))), patterns=[f(i)])
    H = [inc(A, M), inc(off, G), rng(A, M, off, G, to), rng(off, G, A, M, bk), M >= 0, G >= 0]
    both = z3.If(M < G, M, G)
    agree = v.induct('increasing enumerations of one set agree', both, lambda k: z3.And(A(k) == off(k), z3.Or(to(k) >= 0, bk(k) >= 0)), H, lambda k: A(k))
    w = z3.Or(bk(M) >= 0, to(G) >= 0, A(G) == A(G), off(M) == off(M))
    v.check('lemma: increasing enumerations of one set have the same length', M == G, H + [agree, z3.Implies(M < G, A(bk(M)) == off(M)), z3.Implies(G < M, off(to(G)) == A(G))])
    for p in paths:
        if not no_raise(v, p):
            continue
        d = p.val
        at = v.in_state(p, lambda: dict(d.attrs))
        qo, qi = at['query_offsets'], at['query_ids']
        g1, g2 = v.in_state(p, lambda: (qo.frozen(), qi.frozen()))
        m = num(qo.shape[0]) - 1
        alts = []
        for (um, u, first, cls, N_, rd) in p.ghost['unique_list']:
            for (s, t, N2, rd2) in p.perms:
                into = lambda k: grp(g1(k))
                back = lambda g, t=t, cls=cls: t(cls(off(g)))
                Ak = lambda k: g1(k)
                o = lambda k: off(grp(num(g1(k))))
                first_ = [z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(
                    cls(o(i)) >= 0, cls(o(i)) < um, u(cls(o(i))) == fq(o(i)), first(cls(o(i))) <= o(i), fq(o(i)) == fq(num(g1(i))))))]
                for h in first_:
                    v.check('lemma: first occurrence of the id', h, p.hyps)
                goals = [z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(num(g1(i)) >= 0, num(g1(i)) < n))),
                         z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < m), num(g1(i)) < num(g1(j)))),
                         z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), off(grp(num(g1(i)))) == num(g1(i)))),
                         z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < G), z3.And(back(i) >= 0, back(i) < m, num(g1(back(i))) == off(i)))),
                         z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), num(g2(i)) == fq(num(g1(i)))))]
                alts.append(('unique and argsort', [(g, p.hyps + first_, []) for g in goals]))
        if not v.check_any('offsets are the starts of the groups, in order, each with its query id', alts):
            continue
        v.check('the last offset is the number of instances', num(g1(m)) == n, p.hyps)
        v.check('number of queries', num(at['n_queries']) == m, p.hyps)
        v.check('one id per query', num(qi.shape[0]) == m, p.hyps)
        v.check('number of instances', num(at['n_instances']) == n, p.hyps)
        v.check('number of features', num(at['n_features']) == nf, p.hyps)
        r, c = fresh('r'), fresh('c')
        gx, gy = v.in_state(p, lambda: (at['X'].get(r, c), at['y'].get(r)))
        v.check('features', z3.And(num(at['X'].shape[0]) == n, num(at['X'].shape[1]) == nf, z3.ForAll([r, c], z3.Implies(
            z3.And(r >= 0, r < n, c >= 0, c < nf), gx == fX(r, c)))), p.hyps)
        v.check('labels', z3.And(num(at['y'].shape[0]) == n, z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < n), gy == fy(r)))), p.hyps)
        if at['_hash_cached'] is not None:
            v.fail('no hash is cached yet', '')
    unchanged(v, paths, [('query ids', q, fq), ('features', X, fX), ('labels', y, fy)])


@unit('C06', 'dataset.Dataset.__init__[wrong number of query ids]')
def init_bad(v):
    n, nf, m = v.int('n', 1), v.int('nf', 1), v.int('m', 0)
    v.ctx.assume(n != m)
    X, y, q = v.array('X', (n, nf)), v.array('y', n), v.array('qids', m, 'int')
    paths = v.run(lambda: v.ctx.call(v.cls(DS), [X, y, q], {}))
    for p in paths:
        if p.kind != 'raise' and v.feasible_path(p):
            v.fail('a query id array of the wrong length is refused', 'accepted')
    v.check('a query id array of the wrong length is refused', z3.BoolVal(any(p.kind == 'raise' for p in paths)), v.ctx.pc)


def with_groups(v, d):
    """ghost of the dataset invariant: grp(j) is the query of instance j"""
    S = d.sym
    grp = fresh_fun('grp', I, I)
    j, i = fresh('j'), fresh('i')
    off, n, G = S['off'], S['n'], S['nq']
    v.ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(grp(j) >= 0, grp(j) < G, off(grp(j)) <= j, j < off(grp(j) + 1))), patterns=[grp(j)]))
    v.ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < G, off(i) <= j, j < off(i + 1)), grp(j) == i), patterns=[z3.MultiPattern(off(i), grp(j))]))
    S['grp'] = grp
    return S


@unit('C06', 'dataset.Dataset.query_iterator')
def iterate(v):
    d = dataset(v)
    S = with_groups(v, d)

    def go():
        g = v.ctx.call(v.ctx.getattr(d, 'query_iterator'), [], {})
        return v.ctx.seq(g)
    paths = v.run(go)
    i = fresh('i')
    for p in paths:
        if not no_raise(v, p):
            continue
        m, el = p.val
        t = v.in_state(p, lambda: el(i))
        v.check('every query once, in order, with its id and range', z3.And(num(m) == S['nq'], z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < S['nq']), z3.And(
            num(t[0]) == S['ids'](i), num(t[1]) == S['off'](i), num(t[2]) == S['off'](i + 1))))), p.hyps)


@unit('C06', 'dataset.Dataset.get_query_sizes')
def sizes(v):
    d = dataset(v)
    S = d.sym
    paths = v.run(lambda: v.ctx.call(v.ctx.getattr(d, 'get_query_sizes'), [], {}))
    i = fresh('i')
    for p in paths:
        if no_raise(v, p):
            g = v.in_state(p, lambda: p.val.get(i))
            v.check('sizes of the queries, in order', z3.And(num(p.val.shape[0]) == S['nq'], z3.ForAll([i], z3.Implies(
                z3.And(i >= 0, i < S['nq']), num(g) == S['off'](i + 1) - S['off'](i)))), p.hyps)


@unit(['C06', 'C09'], 'dataset.Dataset.get_qids_dataset')
def expand(v):
    d = dataset(v)
    S = with_groups(v, d)
    paths = v.run(lambda: v.ctx.call(v.ctx.getattr(d, 'get_qids_dataset'), [], {}))
    j = fresh('j')
    for p in paths:
        if no_raise(v, p):
            g = v.in_state(p, lambda: p.val.get(j))
            v.check('the id of the query of every instance', z3.And(num(p.val.shape[0]) == S['n'], z3.ForAll([j], z3.Implies(
                z3.And(j >= 0, j < S['n']), num(g) == S['ids'](S['grp'](j))))), p.hyps)
    frame(v, paths, d)


def frame(v, paths, d):
    S = d.sym
    unchanged(v, paths, [('labels', d.attrs['y'], S['y']), ('features', d.attrs['X'], S['X']),
                         ('query offsets', d.attrs['query_offsets'], S['off']), ('query ids', d.attrs['query_ids'], S['ids'])])
    for p in paths:
        if p.kind == 'normal':
            now = v.in_state(p, lambda: dict(d.attrs))
            ch = [k for k in now if now[k] is not d.attrs.get(k) and not (is_z3(now[k]) and same(now[k], d.attrs.get(k)))]
            if ch:
                v.fail('the dataset is not modified', str(ch))


@unit('C06', 'dataset.Dataset.get_query_offsets')
def offsets(v):
    d = dataset(v)
    S = d.sym
    q = v.int('q')
    paths = v.run(lambda: v.ctx.call(v.ctx.getattr(d, 'get_query_offsets'), [q], {}))
    k = fresh('k')
    known = z3.Exists([k], z3.And(k >= 0, k < S['nq'], S['ids'](k) == q))
    for p in paths:
        if p.kind == 'raise':
            if p.val.cls != 'LookupError' and v.feasible_path(p):
                v.fail('an unknown query id raises a lookup error', p.val.cls)
            v.check('a lookup error is raised for unknown query ids only', z3.Not(known), p.hyps)
            continue
        k1 = v.int('k1', 0)
        hy = p.hyps + [k1 >= 0, k1 < S['nq'], S['ids'](k1) == q]
        v.check('the range of the query id', z3.And(num(p.val[0]) == S['off'](k1), num(p.val[1]) == S['off'](k1 + 1)), hy)
        v.check('known query ids only are answered', known, p.hyps)


def member_ids(v, p, S):
    """the query ids searched in a list of ids are those of the instances, where that can be proved"""
    j = fresh('j')
    out = []
    for mem, w, av, na in p.ghost['members']:
        ids = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < S['n']), av(j) == S['ids'](S['grp'](j))), patterns=[av(j)])
        if v.prover.prove(relevant(p.hyps, ('sel!', 'in!'), {decl(av)}), ids, quick=True):
            out.append(ids)
    return out


# -- derived datasets -------------------------------------------------------------------------------------------------
def constructor(v, made):
    """contract of Dataset(X, y, query_ids, name) used at its call sites: requires as many labels and query ids as rows, and
    the rows of a query to be contiguous (see dataset.Dataset.__init__, where the contents are proved)"""
    def h(ctx, args, kw):
        a = dict(zip(('X', 'y', 'query_ids', 'name'), args))
        a.update(kw)
        X, y, q = a['X'], a['y'], a['query_ids']
        n = num(X.shape[0])
        ctx.oblige('Dataset: one label per row', num(y.shape[0]) == n)
        ctx.oblige('Dataset: one query id per row', num(q.shape[0]) == n)
        d = Abstract('Dataset', dict(X=X, y=y, query_ids=q, name=a.get('name'), fX=X.frozen(), fy=y.frozen(), fq=q.frozen(), m=n))
        made.append(d)
        return d
    v.ctx.overrides[DS] = h


def part(v, p, d, S, member, name, index, cols=None):
    """the dataset d has exactly the instances j of the source with member(grp(j)), in order, unchanged"""
    a = d.attrs
    i, k, c, j = fresh('i'), fresh('k'), fresh('c'), fresh('j')
    alts = []
    known = member_ids(v, p, S)
    for s in p.ghost['selections']:
        m, pos, rank = num(s.count), s.pos, s.rank
        syms = {decl(pos), decl(rank)} | names_of(s.mask(z3.IntVal(0)))
        for mem, w, av, na in p.ghost['members']:
            if decl(mem) in syms:
                syms |= {decl(w), decl(av)}
        hyps = relevant(p.hyps, ('sel!', 'in!'), syms)
        # the mask first: its positions in the list of selected queries are the instantiations that are needed
        at = ([] if index is None else [z3.ForAll([j], N.AT(index(S['grp'](j))), patterns=[S['grp'](j)])]) + known
        mask = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < S['n']), z3.And(S['grp'](j) >= 0, s.mask(j) == member(S['grp'](j)))), patterns=[s.mask(j)])
        nosel = relevant(hyps, ('sel!',))
        noin = relevant(hyps, ('in!',), names_of(s.mask(z3.IntVal(0)))) + [mask]
        inr = z3.And(i >= 0, i < m)
        gq, gy, gx = v.in_state(p, lambda: (num(a['fq'](i)), num(a['fy'](i)), num(a['fX'](i, c))))
        goals = [(mask, nosel + at), a['m'] == m,
                 num(a['X'].shape[1]) == (S['nf'] if cols is None else cols),
                 z3.ForAll([i], z3.Implies(inr, z3.And(pos(i) >= 0, pos(i) < S['n'], member(S['grp'](pos(i)))))),
                 z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, i < k, k < m), pos(i) < pos(k))),
                 z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < S['n'], member(S['grp'](j))), z3.And(rank(j) >= 0, rank(j) < m, pos(rank(j)) == j))),
                 # precondition of the constructor: the rows of a query are contiguous
                 z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, i < k, k < m), S['grp'](pos(i)) <= S['grp'](pos(k)))),
                 z3.ForAll([i], z3.Implies(inr, gq == S['ids'](S['grp'](pos(i))))),
                 z3.ForAll([i], z3.Implies(inr, gy == S['y'](pos(i)))),
                 z3.ForAll([i, c], z3.Implies(z3.And(inr, c >= 0, c < S['nf']), gx == S['X'](pos(i), c)))]
        alts.append(('selected rows', [(g[0], g[1], []) if isinstance(g, tuple) else (g, noin, []) for g in goals]))
    v.check_any(name + ': exactly the instances of its queries, in the original order, unchanged', alts)


def run_split(v, tr, va, seed_kind, extra=''):
    d = dataset(v)
    S = with_groups(v, d)
    made = []
    constructor(v, made)
    seed = {'none': lambda: None, 'int': lambda: v.int('seed', 0), 'state': lambda: N.random_state(v.ctx, 'given')}[seed_kind]()

    def go():
        del made[:]
        r = v.ctx.call(v.ctx.getattr(d, 'split'), [tr] + ([va] if va is not None else []), dict(random_state=seed))
        return (v.ctx.seq_items(r) if not isinstance(r, tuple) else r)
    return d, S, v.run(go)


def ok_fractions(tr, va):
    return z3.And(tr >= 0, tr <= 1, va >= 0, tr + va <= 1)


def split_unit(kind, with_vali):
    @unit('C07', 'dataset.Dataset.split[%s, %s]' % ('with validation' if with_vali else 'no validation', kind), weight=2)
    def f(v):
        tr, va = v.real('train'), (v.real('vali') if with_vali else None)
        vr = va if with_vali else z3.RealVal(0)
        d, S, paths = run_split(v, tr, va, kind)
        G = S['nq']
        for p in paths:
            if p.kind == 'raise':
                v.check('valid fractions are accepted', z3.Not(ok_fractions(tr, vr)), p.hyps)
                continue
            v.check('invalid fractions are refused', ok_fractions(tr, vr), p.hyps)
            parts = p.val
            v.check('number of parts', z3.BoolVal(len(parts) in (2, 3)), p.hyps)
            v.check('a validation part exactly when one is asked for', (vr != 0) == z3.BoolVal(len(parts) == 3), p.hyps)
            ps = p.ghost['permutations']
            if len(ps) != 1:
                v.fail('one permutation of the queries is drawn', str(len(ps)))
                continue
            s, t, N_, key, k, sd = ps[0]
            v.check('the permutation is of the queries', num(N_) == G, p.hyps)
            want = {'none': 'global', 'int': 'seeded', 'state': 'given'}[kind]
            v.check('the permutation is drawn from the generator given', z3.BoolVal(key == want and k == 1), p.hyps)
            if kind == 'int':
                v.check('the permutation depends on the seed only', num(sd) == z3.Int('seed'), p.hyps)
            f_ = opaque('ROUND', R, I)
            qn = f_(tr * z3.ToReal(G))
            qv = f_(vr * z3.ToReal(G))
            mn = lambda x, y: z3.If(x <= y, x, y)
            b1 = mn(qn, G)
            b2 = mn(qn + qv, G) if len(parts) == 3 else b1
            # the counts
            v.check('training queries: the requested fraction, rounded', z3.And(b1 >= 0, b1 <= G, 2 * (z3.ToReal(b1) - tr * z3.ToReal(G)) <= 1,
                                                                                2 * (tr * z3.ToReal(G) - z3.ToReal(b1)) <= 1), p.hyps + rounding(G, tr, vr, qn, qv))
            if len(parts) == 3:
                v.check('validation queries: the requested fraction, rounded, at most what is left',
                        z3.And(b2 >= b1, b2 <= G, 2 * (z3.ToReal(b2 - b1) - vr * z3.ToReal(G)) <= 1,
                               z3.Or(b2 == G, 2 * (vr * z3.ToReal(G) - z3.ToReal(b2 - b1)) <= 1)), p.hyps + rounding(G, tr, vr, qn, qv))
            bounds = [(0, b1), (b1, b2), (b2, G)] if len(parts) == 3 else [(0, b1), (b1, G)]
            names = ['training', 'validation', 'test'] if len(parts) == 3 else ['training', 'test']
            for x, (lo, hi), nm in zip(parts, bounds, names):
                part(v, withh(p, rounding(G, tr, vr, qn, qv)), x, S, lambda g, lo=lo, hi=hi: z3.And(t(g) >= lo, t(g) < hi), nm + ' part', lambda g, lo=lo: t(g) - lo)
        frame(v, paths, d)
    return f


class withh:
    """a path with further hypotheses"""
    def __init__(self, p, hs):
        self.__dict__.update(p.__dict__)
        self.hyps = p.hyps + list(hs)


def rounding(G, tr, vr, qn, qv):
    """rounding to the nearest integer (trusted: builtin round), monotone at 0 and G"""
    g = z3.ToReal(G)
    out = []
    for q, x in ((qn, tr * g), (qv, vr * g)):
        out += [2 * (z3.ToReal(q) - x) <= 1, 2 * (x - z3.ToReal(q)) <= 1, z3.Implies(x >= 0, q >= 0), z3.Implies(x <= g, q <= G)]
    out += [z3.Implies(tr >= 0, tr * g >= 0), z3.Implies(vr >= 0, vr * g >= 0), z3.Implies(tr <= 1, tr * g <= g), z3.Implies(vr <= 1, vr * g <= g),
            z3.Implies(tr + vr <= 1, tr * g + vr * g <= g)]
    return out


for _k in ('none', 'int', 'state'):
    split_unit(_k, True)
split_unit('int', False)


@unit('C09', 'dataset.Dataset.subset')
def subset(v):
    d = dataset(v)
    S = with_groups(v, d)
    made = []
    constructor(v, made)
    m = v.int('m', 0)
    sel = v.array('selected', m, 'int')
    fs = sel.frozen()
    nm = OpaqueStr('the name')

    def go():
        del made[:]
        return v.ctx.call(v.ctx.getattr(d, 'subset'), [sel], dict(name=nm))
    paths = v.run(go)
    k = fresh('k')
    member = lambda g: z3.Exists([k], z3.And(k >= 0, k < m, N.AT(k), fs(k) == S['ids'](g)))
    for p in paths:
        if no_raise(v, p):
            part(v, p, p.val, S, member, 'subset', None)
            own_memory(v, p, d)
    frame(v, paths, d)
    unchanged(v, paths, [('selected query ids', sel, fs)])


def own_memory(v, p, d):
    if p.val.attrs['X'].buf is d.attrs['X'].buf:
        v.fail('the features of the result are not shared with the source', 'same buffer')
    else:
        v.check('the features of the result are not shared with the source', z3.BoolVal(True), [])


@unit('C09', 'dataset.Dataset.subset_features')
def subset_features(v):
    d = dataset(v)
    S = with_groups(v, d)
    made = []
    constructor(v, made)
    m = v.int('m', 0)
    sel = v.array('features', m, 'int')
    fs = sel.frozen()
    i, c = fresh('i'), fresh('c')
    v.ctx.assume(z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < m), z3.And(fs(c) >= 0, fs(c) < S['nf'])), patterns=[fs(c)]))

    def go():
        del made[:]
        return v.ctx.call(v.ctx.getattr(d, 'subset_features'), [sel], {})
    paths = v.run(go)
    for p in paths:
        if no_raise(v, p):
            a = p.val.attrs
            v.check('as many rows and as many columns as selected', z3.And(a['m'] == S['n'], num(a['X'].shape[1]) == m), p.hyps)
            gx, gy, gq = v.in_state(p, lambda: (a['fX'](i, c), a['fy'](i), a['fq'](i)))
            r = [i >= 0, i < S['n']]
            v.check('the requested columns, in order', z3.Implies(z3.And(c >= 0, c < m), gx == S['X'](i, fs(c))), p.hyps + r)
            v.check('the same labels', gy == S['y'](i), p.hyps + r)
            v.check('the same query ids', num(gq) == S['ids'](S['grp'](i)), p.hyps + r)
            own_memory(v, p, d)
    frame(v, paths, d)
    unchanged(v, paths, [('selected features', sel, fs)])


# -- cross-validation -------------------------------------------------------------------------------------------------
def kfold_unit(shuffle, qids_only):
    @unit('C08', 'dataset.Dataset.kfold[%s, %s]' % ('shuffled' if shuffle else 'not shuffled', 'ids' if qids_only else 'datasets'), weight=2)
    def f(v):
        # contract of subset (see dataset.Dataset.subset): the dataset of the given queries
        v.ctx.overrides[DS + '.subset'] = lambda ctx, args, kw: Abstract('subset', dict(source=args[0], q=N.copy(ctx, N.to_arr(ctx, args[1]))))
        d = dataset(v)
        S = d.sym
        G = S['nq']
        nf = v.int('n_folds')

        def go():
            g = v.ctx.call(v.ctx.getattr(d, 'kfold'), [nf, qids_only, shuffle], {})
            m, el = v.ctx.seq(g)
            v.ctx.assume(fold >= 0, fold < num(m))
            return m, el(fold)
        fold = fresh('fold')
        paths = v.run(go)
        ok = z3.And(nf >= 2, nf <= G)
        for p in paths:
            if p.kind == 'raise':
                v.check('valid numbers of folds are accepted', z3.Not(ok), p.hyps)
                continue
            v.check('invalid numbers of folds are refused', ok, p.hyps)
            m, parts = p.val
            v.check('the requested number of folds', num(m) == nf, p.hyps)
            ps = p.ghost['permutations']
            if shuffle:
                if len(ps) != 1:
                    v.fail('the queries are shuffled once', str(len(ps)))
                    continue
                s, t, N_ = ps[0][:3]
                v.check('all the queries are shuffled', num(N_) == G, p.hyps)
            else:
                s = t = lambda i: num(i)
            # size of a block of queries; block b is [b*fs, (b+1)*fs), the last one extends to the end
            fs = G / nf
            i, q = fresh('i'), fresh('q')
            inf = [fold >= 0, fold < nf]
            base = p.hyps + [nf >= 2, nf <= G, fs >= 1, fs * nf <= G]
            v.check('lemma: block size', z3.And(fs >= 1, fs * nf <= G), p.hyps + [ok])
            if len(parts) != 3:
                v.fail('three parts', str(len(parts)))
                continue
            get = []
            for x in parts:
                if not qids_only:
                    if not isinstance(x, Abstract) or x.attrs['source'] is not d:
                        v.fail('each part is a subset of the dataset', str(x))
                        return
                    x = x.attrs['q']
                get.append((num(x.shape[0]), v.in_state(p, lambda x=x: num(x.get(i)))))
            # cyclic interval of positions of the part: start, length
            st = lambda b: fs * b
            cyc = lambda b: z3.If(b < 0, b + nf, b)
            T, V_, E = fold, cyc(fold - 2), cyc(fold - 1)
            ends = [(T, V_), (V_, E), (E, T)]
            pos = lambda x: z3.If(x >= G, x - G, x)
            lens = []
            v.check('lemma: blocks are within the queries', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nf), z3.And(fs * q >= 0, fs * q + fs <= fs * nf))), [nf >= 2, fs >= 1])
            L = lambda b: [z3.And(fs * b >= 0, fs * b + fs <= fs * nf)]
            loc = base + inf + L(T) + L(V_) + L(E)
            D_ = lambda a, b: z3.If(st(b) < st(a), st(b) + G - st(a), st(b) - st(a))
            for nm, (a, b), (ln, g) in zip(('train', 'validation', 'test'), ends, get):
                v.check('%s: number of queries of the cyclic range of blocks' % nm, ln == D_(a, b), loc)
                v.check('%s: the queries of the cyclic range of blocks, in order' % nm,
                        z3.Implies(z3.And(i >= 0, i < ln), g == S['ids'](s(pos(st(a) + i)))), loc + [ln == D_(a, b)])
            # the three ranges are consecutive and go once around
            v.check('each query is in exactly one of the three parts', D_(T, V_) + D_(V_, E) + D_(E, T) == G, loc)
            # a query is tested, and validated, in the fold of its block only
            x, b, a2, b2 = fresh('x'), fresh('b'), fresh('a'), fresh('b')
            v.check('lemma: blocks are disjoint', z3.Implies(a2 < b2, fs * a2 + fs <= fs * b2), [fs >= 1])
            apart = [z3.Implies(u < w, fs * u + fs <= fs * w) for u in (b, E, V_, T) for w in (b, E, V_, T)]
            blk = [x >= 0, x < G, b >= 0, b < nf, fs * b <= x, z3.Or(b == nf - 1, x < fs * b + fs)]
            for nm, lo, hi in (('test', E, T), ('validation', V_, E)):
                ins = z3.If(st(hi) > st(lo), z3.And(st(lo) <= x, x < st(hi)), z3.Or(x >= st(lo), x < st(hi)))
                v.check('%s: exactly the queries of one block' % nm, ins == (b == lo), loc + apart + blk)
            for nm, k in (('test', 1), ('validation', 2)):
                v.check('%s: each block is that of exactly one fold' % nm, z3.Implies(z3.And(b >= 0, b < nf), (cyc(fold - k) == b) == (fold == z3.If(b + k >= nf, b + k - nf, b + k))), [nf >= 2] + inf)
    return f


for _s in (False, True):
    for _q in (True, False):
        kfold_unit(_s, _q)


# -- equality and hash ------------------------------------------------------------------------------------------------
def equal_content(v, d, e):
    A, B_ = d.sym, e.sym
    i, c = fresh('i'), fresh('c')
    return z3.And(A['n'] == B_['n'], A['nf'] == B_['nf'], A['nq'] == B_['nq'],
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= A['nq']), A['off'](i) == B_['off'](i))),
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < A['nq']), A['ids'](i) == B_['ids'](i))),
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < A['n']), A['y'](i) == B_['y'](i))),
                  z3.ForAll([i, c], z3.Implies(z3.And(i >= 0, i < A['n'], c >= 0, c < A['nf']), A['X'](i, c) == B_['X'](i, c))))


@unit('C10', 'dataset.Dataset.__eq__, __ne__')
def equality(v):
    d, e = dataset(v, 'd'), dataset(v, 'e')
    want = equal_content(v, d, e)
    for op in ('__eq__', '__ne__'):
        paths = v.run(lambda: v.ctx.call(v.ctx.getattr(d, op), [e], {}))
        for p in paths:
            if no_raise(v, p):
                r = boolean(p.val) if op == '__eq__' else z3.Not(boolean(p.val))
                v.check('%s: equal only if the content is' % op, z3.Implies(r, want), p.hyps)
                v.check('%s: equal if the content is' % op, z3.Implies(want, r), p.hyps)
        frame(v, paths, d)
        frame(v, paths, e)


UPD = opaque('UPD_md5', I, I, I)


def content(ctx, a):
    """an integer determined by the shape and by the values of an array (equal arrays have equal contents)"""
    a = N.to_arr(ctx, a)
    rd = a.frozen()
    if a.ndim == 1:
        f = opaque('CONTENT1', AIR, I, I)
        return f(lam(lambda i: real(rd(i))), num(a.shape[0]))
    if a.ndim != 2:
        raise Unsupported('contents of this array')
    r, c = z3.Ints('r!b c!b')
    f = opaque('CONTENT2', z3.ArraySort(I, I, R), I, I, I)
    return f(z3.Lambda([r, c], z3.simplify(real(rd(r, c)))), num(a.shape[0]), num(a.shape[1]))


def md5(v):
    """assumed contract of hashlib.md5: the digest is a function of the sequence of the byte strings fed to it; the bytes of a
    C-ordered double array are a function of its values (zeros normalised)"""
    cls = ClassVal('md5', [], None, None)

    def update(ctx, args, kw):
        args[0].attrs['state'] = UPD(args[0].attrs['state'], content(ctx, args[1]))
    cls.members['update'] = Builtin('hashlib.md5.update', update)
    cls.members['hexdigest'] = Builtin('hashlib.md5.hexdigest', lambda ctx, args, kw: Abstract('digest', dict(value=opaque('HEX', I, I)(args[0].attrs['state']))))
    v.ctx.overrides['hashlib.md5'] = lambda ctx, args, kw: Obj(ctx, cls, dict(state=opaque('MD5', I)()))
    v.ctx.overrides['int'] = lambda ctx, args, kw: args[0].attrs['value'] if isinstance(args[0], Abstract) and 'value' in args[0].attrs else N.b_int(ctx, args, kw)


@unit('C10', 'dataset.Dataset.__hash__')
def hashing(v):
    md5(v)
    d, e = dataset(v, 'd'), dataset(v, 'e')
    want = equal_content(v, d, e)
    h = lambda o: v.ctx.call(v.ctx.getattr(o, '__hash__'), [], {})
    # the caches of both: empty, or filled by an earlier call
    paths = v.run(lambda: (h(d), h(e), h(d)))
    for p in paths:
        if no_raise(v, p):
            a, b, a2 = [num(x) for x in p.val]
            v.check('equal datasets have equal hashes', z3.Implies(want, a == b), p.hyps)
            v.check('the hash of a dataset does not change', a == a2, p.hyps)
    for o in (d, e):
        S = o.sym
        unchanged(v, paths, [('labels', o.attrs['y'], S['y']), ('features', o.attrs['X'], S['X']),
                             ('query offsets', o.attrs['query_offsets'], S['off']), ('query ids', o.attrs['query_ids'], S['ids'])])
