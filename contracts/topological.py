"""C26: topological analysis.

Ghost functions of the model: PAR (parent), LEVEL, POS (left-to-right position in the level) and IDX (position in the complete
binary tree, breadth first); IDX(x) = 2^LEVEL(x) - 1 + POS(x) is a lemma.  Class invariant of RTEnsemble used here on top of
contracts/model.py: a node which is not a root is the child of exactly one split, and children come after their parent."""
from contracts.common import *
from contracts.model import ensemble
import vcg.npmodel as N

TO = 'rankeval.analysis._efficient_topological.'
P2I = opaque('P2I', I, I)
MSB = opaque('MSB', I, I)


def step():
    k = fresh('k')
    return [z3.ForAll([k], z3.Implies(k > 0, P2I(k) == 2 * P2I(k - 1)), patterns=[P2I(k)])]


def assume_powers(v):
    """the lemmas proved in unit "powers of two" """
    j, k = fresh('j'), fresh('k')
    v.ctx.assume(P2I(0) == 1, z3.ForAll([k], z3.Implies(k >= 0, P2I(k) >= 1), patterns=[P2I(k)]),
                 z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k), P2I(j) < P2I(k)), patterns=[z3.MultiPattern(P2I(j), P2I(k))]),
                 z3.ForAll([k], z3.Implies(k >= 0, EXP2(z3.ToReal(k)) == z3.ToReal(P2I(k))), patterns=[EXP2(z3.ToReal(k))]))


@unit('C26', 'powers of two')
def powers_unit(v):
    j, k = fresh('j'), fresh('k')
    n = v.int('anyk', 0)
    hy = list(v.ctx.pc) + [P2I(0) == 1] + step()
    v.induct('powers of two are positive', n, lambda k: P2I(k) >= 1, hy)
    pos = z3.ForAll([k], z3.Implies(k >= 0, P2I(k) >= 1), patterns=[P2I(k)])
    v.induct('powers of two increase', n, lambda k: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), P2I(j) < P2I(k))), hy + [pos])


@unit('C26', '_efficient_topological.most_significant_bit')
def msb(v):
    x = v.int('x', 1)
    v.ctx.assume(x < 2 ** 63)
    paths = v.run(lambda: v.ctx.call(v.func(TO + 'most_significant_bit'), [x], {}))
    for p in paths:
        if no_raise(v, p):
            r = conc_int(p.val)
            if r is None:
                raise Unsupported('the position of the bit is not a number on every path')
            v.check('the result is the position of the most significant bit', z3.And(x >= 2 ** r, x < 2 ** (r + 1)) if r >= 0 else z3.BoolVal(False), p.hyps)


def conc_int(x):
    if isinstance(x, int):
        return x
    x = z3.simplify(num(x))
    return x.as_long() if z3.is_int_value(x) else None


def msb_contract(v):
    def h(ctx, a, k):
        x = num((list(a) + list(k.values()))[0])
        ctx.oblige('precondition of most_significant_bit: a positive number', x >= 1)
        return MSB(x)
    v.ctx.overrides[TO + 'most_significant_bit'] = h
    x = fresh('x')
    v.ctx.assume(z3.ForAll([x], z3.Implies(x >= 1, z3.And(MSB(x) >= 0, P2I(MSB(x)) <= x, x < P2I(MSB(x) + 1), P2I(MSB(x) + 1) == 2 * P2I(MSB(x)))), patterns=[MSB(x)]))


class Topo:
    pass


def topology(v):
    e = ensemble(v)
    c = v.ctx
    g = Topo()
    g.e = e
    g.par, g.level, g.pos, g.idx = [fresh_fun(n, I, I) for n in ('PAR', 'LEVEL', 'POS', 'IDX')]
    x, t = fresh('x'), fresh('t')
    inn = lambda q: z3.And(q >= 0, q < e.N)
    g.isroot = lambda x: e.root(e.tree(x)) == x
    p = g.par(x)
    c.assume(z3.ForAll([x], z3.Implies(z3.And(inn(x), z3.Not(g.isroot(x))), z3.And(
        inn(p), p < x, e.tree(p) == e.tree(x), z3.Not(e.leaf(p)), z3.Or(e.left(p) == x, e.right(p) == x))), patterns=[p]))
    for ch in (e.left, e.right):
        y = ch(x)
        c.assume(z3.ForAll([x], z3.Implies(z3.And(inn(x), z3.Not(e.leaf(x))), z3.And(g.par(y) == x, y > x, e.left(x) != e.right(x), e.tree(y) == e.tree(x))), patterns=[y]))
    # definitions
    c.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < e.T), z3.And(g.idx(e.root(t)) == 0, g.level(e.root(t)) == 0, g.pos(e.root(t)) == 0)), patterns=[e.root(t)]))
    for ch, d in ((e.left, 0), (e.right, 1)):
        c.assume(z3.ForAll([x], z3.Implies(z3.And(inn(x), z3.Not(e.leaf(x))), z3.And(
            g.idx(ch(x)) == 2 * g.idx(x) + 1 + d, g.pos(ch(x)) == 2 * g.pos(x) + d, g.level(ch(x)) == g.level(x) + 1)), patterns=[ch(x)]))
    return g


def lemma_positions(v, g, prove=False):
    """IDX(x) = 2^LEVEL(x) - 1 + POS(x) with 0 <= POS(x) < 2^LEVEL(x)"""
    P = lambda x: z3.And(g.level(x) >= 0, g.pos(x) >= 0, g.pos(x) < P2I(g.level(x)), g.idx(x) == P2I(g.level(x)) - 1 + g.pos(x))
    if prove:
        x = v.int('x', 0)
        y = fresh('y')
        ih = z3.ForAll([y], z3.Implies(z3.And(y >= 0, y < x), P(y)), patterns=[g.par(y)])
        p = g.par(x)
        v.check('lemma (induction over the nodes): position in the complete tree, level and position in the level', z3.Implies(x < g.e.N, P(x)),
                list(v.ctx.pc) + step() + [g.e.tree(x) == g.e.tree(x), z3.Implies(z3.And(p >= 0, p < x), P(p)), ih], hints=[])
    else:
        x = fresh('x')
        v.ctx.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < g.e.N), P(x)), patterns=[g.idx(x)]))


@unit('C26', 'lemma on positions')
def positions(v):
    g = topology(v)
    assume_powers(v)
    lemma_positions(v, g, True)


COMPUTE = TO + '_compute_node_indices'


def final(g, excl, x):
    return z3.If(z3.And(excl, g.e.leaf(x)), z3.IntVal(0), g.idx(x))


@unit('C26', '_efficient_topological._compute_node_indices', weight=3)
def compute(v):
    g = topology(v)
    e = g.e
    c = v.ctx
    assume_powers(v)
    msb_contract(v)
    t = v.int('t', 0)
    c.assume(t < e.T)
    r, end = e.root(t), e.end(t)
    NI = v.array('node_indices', e.N, 'int')
    ni0 = NI.frozen()
    x, k = fresh('x'), fresh('k')
    c.assume(z3.ForAll([x], z3.Implies(z3.And(x >= r, x < end), ni0(x) == 0), patterns=[ni0(x)]))
    incl = z3.Bool('include_leaves')
    excl = z3.Not(incl)
    intree = lambda x: z3.And(x >= r, x < end)
    # tree(x) = t exactly for the nodes of the range
    c.assume(z3.ForAll([x], z3.Implies(intree(x), e.tree(x) == t), patterns=[e.tree(x)]))
    v.check('trees have nodes', end > r, list(c.pc))
    c.assume(end > r)
    lemma_positions(v, g)
    MX, W = fresh_fun('MAXIDX', I, I), fresh_fun('WHERE', I, I)
    cur = lambda k: r + k
    big = lambda k: 2 * g.idx(cur(k)) + 2

    def facts(k):
        return [z3.If(e.leaf(cur(k)), z3.And(MX(k + 1) == MX(k), W(k + 1) == W(k)),
                      z3.And(MX(k + 1) == z3.If(MX(k) >= big(k), MX(k), big(k)), W(k + 1) == z3.If(MX(k) >= big(k), W(k), e.right(cur(k))))),
                e.tree(cur(k)) == t, z3.Or(cur(k) == r, g.par(cur(k)) < cur(k)),
                NI.buf.read(cur(k)) == contents(k, cur(k))]      # (instances of the class invariant and of the loop invariant)
    c.assume(MX(0) == 0, W(0) == r)

    def contents(k, x):
        done = z3.Or(x == r, g.par(x) < r + k)
        return z3.If(z3.And(intree(x), done), z3.If(z3.And(excl, e.leaf(x), x < r + k), z3.IntVal(0), g.idx(x)), ni0(x))

    def spec(ctx, n, body, fr, where, parallel):
        if not ctx.entails(num(n) == end - r):
            raise Unsupported('the loop does not visit every node of the tree once')

        def inv(k, bufs):
            if any(b is not NI.buf for b, _ in bufs):
                raise Unsupported('other storage is modified')
            x = fresh('x')
            return [z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < e.N), NI.buf.read(x) == contents(k, x))),
                    MX(k) >= 0]
        ctx.spec_loop(n, body, fr, inv, lambda k: [MX(k), r + num(k)], where=where, name='nodes of the tree', facts=facts)
        return True
    c.for_specs[COMPUTE] = spec
    f = v.func(COMPUTE)
    byname = dict(idx_tree=t, trees_root=e.arr['trees_root'], trees_left_child=e.arr['trees_left_child'], trees_right_child=e.arr['trees_right_child'],
                  node_indices=NI, idx_last_node=end, include_leaves=incl)
    paths = v.run(lambda: c.call(f, [], {p.arg: byname[p.arg] for p in f.node.args.args}))
    n = z3.simplify(end - r)
    kk = z3.Int('anyk')
    fs = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(*facts(k))), patterns=[MX(k + 1)])
    for p in paths:
        if not no_raise(v, p):
            continue
        hy = p.hyps + list(c.pc)
        nid = v.in_state(p, lambda: NI.get(x))
        v.check('position of every node of the tree (leaves at 0 when they are left out), other trees untouched',
                z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < e.N), nid == z3.If(intree(x), final(g, excl, x), ni0(x)))), hy)
        # MX(k): largest position given to a node by the first k nodes
        h = num(p.val)
        hyk = hy + [kk >= 0, kk <= n]
        prev = [z3.Implies(kk > 0, z3.And(*facts(kk - 1)))]
        A = lambda k: z3.And(W(k) >= r, W(k) < end, MX(k) == g.idx(W(k)), MX(k) >= 0)
        v.check('lemma (induction): the largest position is that of a node', A(kk), hyk + prev + [z3.Implies(kk > 0, A(kk - 1)), e.tree(e.right(cur(kk - 1))) == e.tree(e.right(cur(kk - 1)))])
        B1 = lambda k: z3.Implies(z3.And(intree(x), z3.Or(x == r, g.par(x) < r + k)), g.idx(x) <= MX(k))
        Bd = lambda k: z3.ForAll([x], B1(k), patterns=[g.par(x)])
        q = g.par(x)
        ground = [z3.Implies(z3.And(intree(x), x != r), z3.And(q >= r, q < e.N, z3.Not(e.leaf(q)), z3.Or(e.left(q) == x, e.right(q) == x),
                                                              g.idx(e.left(q)) == 2 * g.idx(q) + 1, g.idx(e.right(q)) == 2 * g.idx(q) + 2))]
        v.check('nodes of the tree but the root are children', ground[0], hy + [e.tree(x) == e.tree(x), q == q])
        v.check('lemma (induction): no position is larger', B1(kk), [h for h in hyk if not z3.is_quantifier(h)] + prev + ground + [z3.Implies(kk > 0, z3.And(B1(kk - 1), MX(kk - 1) >= 0)), g.idx(r) == 0, MX(kk) >= 0])
        Afull = z3.And(A(n))
        L = g.level(W(n))
        v.check('the height is the level of a node of the tree', h == L, hy + step() + [Afull, P2I(L + 1) == 2 * P2I(L), L >= 0, g.idx(W(n)) == P2I(L) - 1 + g.pos(W(n)), g.pos(W(n)) >= 0, g.pos(W(n)) < P2I(L),
                                                                                       z3.Implies(h < L, z3.Or(h + 1 == L, P2I(h + 1) < P2I(L))), z3.Implies(L < h, z3.Or(L + 1 == h, P2I(L + 1) < P2I(h)))])
        v.check('no node of the tree has a larger level', z3.Implies(intree(x), g.level(x) <= h), hy + [A(n), Bd(n), z3.Or(x == r, g.par(x) < r + n), g.idx(x) <= MX(n)])
        v.check('every node but the root has its parent in the tree', z3.Implies(intree(x), z3.Or(x == r, g.par(x) < r + n)), hy + [e.tree(x) == e.tree(x), g.par(x) == g.par(x)])


HEIGHT = opaque('HEIGHT', I, I)


@unit('C26', '_efficient_topological.efficient_topological_analysis', weight=3)
def analysis(v):
    g = topology(v)
    e = g.e
    c = v.ctx
    assume_powers(v)
    msb_contract(v)
    lemma_positions(v, g)
    incl = z3.Bool('include_leaves')
    excl = z3.Not(incl)
    f = v.func(COMPUTE)
    names = [p.arg for p in f.node.args.args]
    seen = {}
    ends = lambda k: z3.If(num(k) < e.T, e.root(num(k)), e.N)

    def h(ctx, args, kw):
        b = dict(zip(names, args))
        b.update(kw)
        for k in ('trees_root', 'trees_left_child', 'trees_right_child'):
            if not (isinstance(b[k], Arr) and b[k].buf is e.arr[k].buf):
                ctx.oblige('node indices are computed with the %s of the model' % k, z3.BoolVal(False))
        t, ni = num(b['idx_tree']), b['node_indices']
        if not isinstance(ni, Arr):
            raise Unsupported('node indices')
        ctx.oblige('precondition: a tree of the model', z3.And(t >= 0, t < e.T))
        ctx.oblige('precondition: the last node of the tree', num(b['idx_last_node']) == e.end(t))
        ctx.oblige('precondition: one cell per node', num(ni.shape[0]) == e.N)
        ctx.oblige('leaves are included as requested', boolean(ctx.truth(b['include_leaves'])) == incl)
        x = fresh('x')
        ctx.oblige('precondition: cells are zero', z3.ForAll([x], z3.Implies(z3.And(x >= e.root(t), x < e.end(t)), num(ni.get(x)) == 0)))
        seen['ni'] = ni.buf
        ni.write(lambda x: (z3.And(num(x) >= e.root(t), num(x) < e.end(t)), final(g, excl, num(x))))
        return HEIGHT(t)
    c.overrides[COMPUTE] = h
    c.module(TO[:-1]).cache.pop('_compute_node_indices', None)

    def spec(ctx, n, body, fr, where, parallel):
        if not ctx.entails(num(n) == e.T):
            return False
        if 'second' in seen and False:
            return False

        def inv(k, bufs):
            out = []
            for b, old in bufs:
                x = fresh('x')
                if b is seen.get('ni'):
                    out.append(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < e.N), b.read(x) == z3.If(x < ends(k), final(g, excl, x), z3.IntVal(0)))))
                elif b.ndim == 1 and old is not None:
                    out.append(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < e.T), b.read(x) == z3.If(x < num(k), HEIGHT(x), old(x)))))
                else:
                    raise Unsupported('storage modified in the loop')
            if len(out) > 2:
                raise Unsupported('other storage is modified')
            return out
        if parallel:
            t, u = fresh('t'), fresh('u')
            ctx.oblige('iterations write distinct cells', z3.Implies(z3.And(t >= 0, t < u, u < e.T), e.end(t) <= e.root(u)))
        ctx.spec_loop(n, body, fr, inv, where=where, name='trees', facts=lambda k: [e.root(k) >= 0, z3.Implies(k + 1 < e.T, e.root(k) < e.root(k + 1))])
        return True
    c.for_specs[TO + 'efficient_topological_analysis'] = spec

    def csr(ctx, args, kw):
        d, rc = args[0]
        if not all(isinstance(a, Arr) and a.ndim == 1 for a in (d, rc[0], rc[1])):
            raise Unsupported('sparse matrix')
        return Abstract('csr', key=('csr', d, rc[0], rc[1]))
    c.overrides['scipy.sparse.csr_matrix'] = csr
    paths = v.run(lambda: c.call(v.func(TO + 'efficient_topological_analysis'), [e.obj, incl], {}))
    x, j, i, t = fresh('x'), fresh('j'), fresh('i'), fresh('t')
    for p in paths:
        if not no_raise(v, p):
            continue
        hy = p.hyps + list(c.pc)
        M, H = p.val
        if not (isinstance(M, Abstract) and M.name == 'csr'):
            raise Unsupported('the topology is not a sparse matrix')
        d, row, col = M.key[1:]
        ht = v.in_state(p, lambda: N.to_arr(c, H).get(t))
        v.check('height of every tree', z3.Implies(z3.And(t >= 0, t < e.T), num(ht) == HEIGHT(t)), hy)
        v.check('one height per tree', num(N.to_arr(c, H).shape[0]) == e.T, hy)
        us = [u for u in p.ghost['unique_list'] if same(u[4], e.N)]
        if len(us) != 1:
            raise Unsupported('the distinct indices')
        m, u, first, cls, _, rd = us[0]
        rj, cj, dj = v.in_state(p, lambda: (num(row.get(j)), num(col.get(j)), num(d.get(j))))
        rng = z3.And(j >= 0, j < m)
        inn = z3.And(x >= 0, x < e.N)
        counted = lambda x: z3.Or(incl, z3.Not(e.leaf(x)), g.isroot(x))
        v.check('the nodes counted', z3.Implies(inn, num(rd(x)) == final(g, excl, x)), hy)
        hy = hy + [z3.ForAll([x], z3.Implies(inn, num(rd(x)) == final(g, excl, x)), patterns=[rd(x)])]
        v.check('entries of the matrix', z3.And(num(row.shape[0]) == m, num(col.shape[0]) == m, num(d.shape[0]) == m), hy)
        x0 = first(j)
        v.check('every entry is a position of a level', z3.Implies(rng, z3.And(rj >= 0, cj >= 0, cj < P2I(rj), u(j) == P2I(rj) + cj - 1)), hy + [g.idx(x0) >= 0, u(j) >= 0])
        v.check('indices are not negative', z3.Implies(rng, u(j) >= 0), hy + [g.idx(x0) == g.idx(x0)])
        hy2 = hy + [z3.Implies(rng, z3.And(rj >= 0, cj >= 0, cj < P2I(rj), u(j) == P2I(rj) + cj - 1, u(j) >= 0, P2I(rj + 1) == 2 * P2I(rj)))]
        r0 = e.root(z3.IntVal(0))
        v.check('the first entry is the root position', z3.And(m >= 1, u(0) == 0), hy + [cls(r0) >= 0, u(cls(r0)) == 0, z3.Implies(cls(r0) > 0, u(0) < u(cls(r0))), g.idx(first(z3.IntVal(0))) >= 0, u(0) == num(rd(first(z3.IntVal(0))))])
        # a node is at the position of the entry exactly when its level and position in the level are those of the entry
        lv1 = P2I(g.level(x) + 1) == 2 * P2I(g.level(x))
        v.check('lemma: a position determines the level and the position in the level', z3.Implies(z3.And(rng, inn), (g.idx(x) == u(j)) == z3.And(g.level(x) == rj, g.pos(x) == cj)),
                hy2 + [lv1, z3.Implies(rj < g.level(x), z3.Or(rj + 1 == g.level(x), P2I(rj + 1) < P2I(g.level(x)))), z3.Implies(g.level(x) < rj, z3.Or(g.level(x) + 1 == rj, P2I(g.level(x) + 1) < P2I(rj)))])
        cnt = lambda cond: mk_sum(lambda q: z3.If(cond(q), z3.IntVal(1), z3.IntVal(0)), e.N)
        at = lambda q: z3.And(counted(q), g.idx(q) == u(j))
        v.check('below the roots an entry counts the nodes at its position', z3.Implies(z3.And(rng, j > 0), dj == cnt(at)),
                hy + [u(j) > u(0), u(0) == 0, z3.ForAll([x], z3.Implies(z3.And(inn, g.isroot(x)), g.idx(x) == 0), patterns=[e.tree(x)])])
        v.check('lemma: roots are at position 0', z3.Implies(z3.And(inn, g.isroot(x)), g.idx(x) == 0), hy + [e.tree(x) >= 0, e.root(e.tree(x)) == e.root(e.tree(x))])
        d0 = v.in_state(p, lambda: num(d.get(z3.IntVal(0))))
        v.check('the entry of the roots is the number of trees', d0 == e.T, hy)
        v.check('every node counted has an entry', z3.Implies(z3.And(inn, counted(x)), z3.And(cls(x) >= 0, cls(x) < m, u(cls(x)) == g.idx(x))),
                hy + [z3.Implies(g.isroot(x), g.idx(x) == 0), e.tree(x) == e.tree(x)])


ROWSUM, STORED = opaque('ROWSUM', I, R), opaque('STORED', I, I)


def result(v):
    c = v.ctx
    e = ensemble(v)
    L = v.int('n_levels', 1)
    i = fresh('i')
    c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L), STORED(i) >= 1), patterns=[STORED(i)]))
    IP = opaque('INDPTR', I, I)
    c.assume(IP(0) == 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L), IP(i + 1) == IP(i) + STORED(i)), patterns=[IP(i + 1)]))
    rows = lambda: N.mk(c, (L,), lambda i: ROWSUM(num(i)), 'float')

    def total(ctx, o, axis=None, **kw):
        if axis not in (1, -1):
            raise Unsupported('sum of the sparse matrix')
        return Abstract('matrix', dict(A1=rows()), dict(getA1=lambda ctx, o: rows()))
    def divided(ctx, o, op, q, right):
        if op != 'Div' or right:
            raise Unsupported('operator on a sparse matrix')
        return Abstract('csr', key=('divided', o, q))
    top = Abstract('csr', dict(indptr=N.mk(c, (L + 1,), lambda i: IP(num(i)), 'int'), shape=(L, None)),
                   dict(sum=total, getnnz=lambda ctx, o, axis=None: N.mk(c, (L,), lambda i: STORED(num(i)), 'int'),
                        binop=divided), key=('csr',))
    heights = v.array('heights', e.T, 'int')
    return e, L, top, heights


@unit('C26', 'TopologicalAnalysisResult')
def results(v):
    e, L, top, heights = result(v)
    c = v.ctx
    incl = z3.Bool('include_leaves')

    def eff(ctx, a, k):
        inc = a[1] if len(a) > 1 else k.get('include_leaves', True)
        ctx.oblige('the analysis is of this model', z3.BoolVal(a[0] is e.obj))
        ctx.oblige('leaves are included as requested', boolean(ctx.truth(inc)) == incl)
        return (top, heights)
    c.overrides[TO + 'efficient_topological_analysis'] = eff

    def go():
        r = c.call(v.func('rankeval.analysis.topological.topological_analysis'), [e.obj], dict(include_leaves=incl))
        return (r, c.call(c.getattr(r, 'avg_tree_shape'), [], {}), c.call(c.getattr(r, 'fullness_per_level'), [], {}))
    paths = v.run(go)
    i = fresh('i')
    for p in paths:
        if not no_raise(v, p):
            continue
        r, avg, full = p.val
        at = v.in_state(p, lambda: dict(r.attrs))
        v.check('topology of the model', z3.BoolVal(at.get('topology') is top), p.hyps)
        v.check('heights of the trees', z3.BoolVal(at.get('height_trees') is heights), p.hyps)
        ok = isinstance(avg, Abstract) and avg.key and avg.key[0] == 'divided' and avg.key[1] is top
        v.check('the average shape is the topology divided by the number of trees', num(avg.key[2]) == e.T if ok else z3.BoolVal(False), p.hyps)
        x = v.in_state(p, lambda: full.get(i))
        rs, st = ROWSUM(i), z3.ToReal(STORED(i))
        v.check('fullness of a level', z3.Implies(z3.And(i >= 0, i < L), real(x) * st * z3.ToReal(e.T) == rs), p.hyps + [STORED(i) >= 1, opaque('INDPTR', I, I)(i + 1) == opaque('INDPTR', I, I)(i) + STORED(i)])
        v.check('one value per level', num(full.shape[0]) == L, p.hyps)
