"""C01-C05: the ensemble of regression trees.  Class invariant of RTEnsemble (established by the loaders, C29-C34): the nodes of
tree t are exactly trees_root[t] .. trees_root[t+1]-1, a node has both children or none, the children of a node are nodes of its
tree of smaller rank (a ghost measure: no cycles), splits have a feature number >= 0."""
from contracts.common import *
import vcg.npmodel as N

SC = 'rankeval.scoring._efficient_scoring.'
RT = 'rankeval.model.rt_ensemble.RTEnsemble'
MODEL_ARRAYS = ('trees_root', 'trees_weight', 'trees_left_child', 'trees_right_child', 'trees_nodes_value', 'trees_nodes_feature')


class Ens:
    pass


def ensemble(v, name='m', lr=1, base=None, nodes=True):
    c = v.ctx
    e = Ens()
    T = e.T = v.int(name + '.n_trees', 1)
    NN = e.N = v.int(name + '.n_nodes', 1)
    a = {k: v.array(name + '.' + k, T if k in ('trees_root', 'trees_weight') else NN,
                    'float' if k in ('trees_weight', 'trees_nodes_value') else 'int') for k in MODEL_ARRAYS}
    e.arr = a
    f = {k: a[k].frozen() for k in a}
    e.root, e.weight, e.left, e.right, e.value, e.feat = [f[k] for k in MODEL_ARRAYS]
    e.end = lambda t: z3.If(num(t) + 1 < T, e.root(num(t) + 1), NN)
    e.leaf = lambda x: z3.And(e.left(x) == -1, e.right(x) == -1)
    rk, tr = fresh_fun(name + '.rank', I, I), fresh_fun(name + '.tree', I, I)
    e.rank, e.tree = rk, tr
    t, u, x = fresh('t'), fresh('u'), fresh('x')
    inn = lambda q: z3.And(q >= 0, q < NN)
    c.assume(e.root(0) == 0)
    c.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < T), z3.And(e.root(t) >= 0, e.root(t) < NN, tr(e.root(t)) == t)), patterns=[e.root(t)]))
    c.assume(z3.ForAll([t, u], z3.Implies(z3.And(t >= 0, t < u, u < T), e.root(t) < e.root(u)), patterns=[z3.MultiPattern(e.root(t), e.root(u))]))
    c.assume(z3.ForAll([x], z3.Implies(inn(x), z3.And(tr(x) >= 0, tr(x) < T, e.root(tr(x)) <= x, x < e.end(tr(x)), rk(x) >= 0)), patterns=[tr(x)]))
    for ch in (e.left, e.right):
        c.assume(z3.ForAll([x], z3.Implies(inn(x), z3.Or(e.leaf(x), z3.And(inn(ch(x)), tr(ch(x)) == tr(x), rk(ch(x)) < rk(x), rk(x) >= 0))), patterns=[ch(x)]))
    c.assume(z3.ForAll([x], z3.Implies(inn(x), z3.If(e.leaf(x), e.feat(x) == -1, e.feat(x) >= 0)), patterns=[e.feat(x)]))
    e.lr, e.base = lr, base
    e.obj = v.obj(RT, n_trees=T, n_nodes=NN, learning_rate=lr, base_score=base, name=OpaqueStr(name), file=OpaqueStr('file'), **a)
    e.obj.attrs['_cache_scorer'] = PyDict(c)
    return e


def leaf_fun(v, e, X, n):
    """LEAF(i, x): leaf reached by row i of X from node x (defined by recursion on the rank of x)"""
    L = fresh_fun('LEAF', I, I, I)
    i, x = fresh('i'), fresh('x')
    step = z3.If(e.leaf(x), x, z3.If(X(i, e.feat(x)) <= e.value(x), L(i, e.left(x)), L(i, e.right(x))))
    v.ctx.assume(z3.ForAll([i, x], z3.Implies(z3.And(i >= 0, i < n, x >= 0, x < e.N), L(i, x) == step), patterns=[L(i, x)]))
    return L


def leaf_range(v, e, L, n):
    """lemma (by induction on the rank, proved in the unit of the traversal): leaves are nodes of the tree"""
    i, x = fresh('i'), fresh('x')
    v.ctx.assume(z3.ForAll([i, x], z3.Implies(z3.And(i >= 0, i < n, x >= 0, x < e.N), z3.And(
        L(i, x) >= 0, L(i, x) < e.N)), patterns=[L(i, x)]))


def features_ok(e, nf):
    x = fresh('x')
    return z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < e.N), e.feat(x) < nf))


TRAVERSE = SC + '_score_single_instance_single_tree'


def traverse_loop(v, e, L, i, n):
    """invariant of the descent: the leaf reached from the current node is the leaf reached from the root"""
    def h(ctx, s, fr, mod, where):
        def cursor(entry):
            return [k for k, x in entry.items() if is_z3(x) and x.sort() == I and k not in ('idx_instance', 'idx_tree')]

        def inv(entry):
            out = []
            for k in cursor(entry):
                cur = fr.vars[k]
                out += [cur >= 0, cur < e.N, L(i, cur) == L(i, entry[k])]
            return out

        def var(entry):
            ks = cursor(entry)
            if len(ks) != 1:
                raise Unsupported('the loop does not move exactly one node')
            return e.rank(fr.vars[ks[0]])
        ctx.invariant_loop(s, fr, mod, where, inv, var, 'descent')
    v.ctx.loop_contracts[TRAVERSE] = h


@unit(['C01', 'C02', 'C03'], '_efficient_scoring._score_single_instance_single_tree')
def traversal(v):
    e = ensemble(v)
    n, nf = v.int('n', 1), v.int('nf', 1)
    X = v.array('X', (n, nf))
    L = leaf_fun(v, e, X.frozen(), n)
    v.ctx.assume(features_ok(e, nf))
    i, t = v.int('i', 0), v.int('t', 0)
    v.ctx.assume(i < n, t < e.T)
    traverse_loop(v, e, L, i, n)
    f = v.func(TRAVERSE)
    byname = dict(X=X, idx_instance=i, idx_tree=t, **e.arr)
    paths = v.run(lambda: v.ctx.call(f, [], {p.arg: byname[p.arg] for p in f.node.args.args}))
    for p in paths:
        if no_raise(v, p):
            v.check('the leaf reached from the root', num(p.val) == L(i, e.root(t)), p.hyps)
            v.check('a node of the model without children', z3.And(num(p.val) >= 0, num(p.val) < e.N, e.leaf(num(p.val))), p.hyps)
    # lemma used by the callers, by induction on the rank (the hypothesis is the statement for nodes of smaller rank)
    x = v.int('x', 0)
    y = fresh('y')
    ih = z3.ForAll([y], z3.Implies(z3.And(y >= 0, y < e.N, e.rank(y) < e.rank(x)), z3.And(L(i, y) >= 0, L(i, y) < e.N)), patterns=[L(i, y)])
    v.check('lemma: leaves are nodes of the model', z3.Implies(x < e.N, z3.And(L(i, x) >= 0, L(i, x) < e.N)), v.ctx.axioms + list(v.ctx.pc) + [ih])


def traverse_contract(v, e, L, X, n, nf):
    """callers of the traversal: arguments are the arrays of the model, the row and the tree are in range"""
    f = v.func(TRAVERSE)
    names = [p.arg for p in f.node.args.args]

    def h(ctx, args, kw):
        b = dict(zip(names, args))
        b.update(kw)
        for k in MODEL_ARRAYS:
            if k in b and not (isinstance(b[k], Arr) and b[k].buf is e.arr[k].buf):
                ctx.oblige('traversal is called with the %s of the model' % k, z3.BoolVal(False))
        if not (isinstance(b['X'], Arr) and b['X'].buf is X.buf):
            ctx.oblige('traversal is called with the features of the dataset', z3.BoolVal(False))
        i, t = num(b['idx_instance']), num(b['idx_tree'])
        ctx.oblige('precondition of the traversal: instance and tree in range', z3.And(i >= 0, i < n, t >= 0, t < e.T))
        ctx.oblige('precondition of the traversal: features of the model within those of the data', features_ok(e, nf))
        return L(i, e.root(t))
    v.ctx.overrides[TRAVERSE] = h
    v.ctx.module(SC[:-1]).cache.pop('_score_single_instance_single_tree', None)


def contrib(e, L, i, t):
    return e.value(L(i, e.root(t))) * e.weight(t)


def raw_score(e, L, i):
    return mk_sum(lambda t: contrib(e, L, i, num(t)), e.T)


def scoring_setup(v):
    e = ensemble(v)
    n, nf = v.int('n', 1), v.int('nf', 1)
    X = v.array('X', (n, nf))
    L = leaf_fun(v, e, X.frozen(), n)
    leaf_range(v, e, L, n)
    v.ctx.assume(features_ok(e, nf))
    traverse_contract(v, e, L, X, n, nf)
    return e, n, nf, X, L


def model_unchanged(v, paths, e, extra=()):
    unchanged(v, paths, [(k, e.arr[k], fz) for k, fz in zip(MODEL_ARRAYS, (e.root, e.weight, e.left, e.right, e.value, e.feat))] + list(extra))


@unit(['C01', 'C03'], '_efficient_scoring.basic_scoring', weight=2)
def basic(v):
    e, n, nf, X, L = scoring_setup(v)
    fX = X.frozen()
    paths = v.run(lambda: v.ctx.call(v.func(SC + 'basic_scoring'), [e.obj, X], {}))
    i = fresh('i')
    for p in paths:
        if no_raise(v, p):
            got = v.in_state(p, lambda: p.val.get(i))
            v.check('one score per instance', num(p.val.shape[0]) == n, p.hyps)
            v.check('sum over the trees of weight times leaf value', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), real(got) == raw_score(e, L, i))), p.hyps)
    model_unchanged(v, paths, e, [('features', X, fX)])


@unit(['C02', 'C03'], '_efficient_scoring.detailed_scoring', weight=2)
def detailed(v):
    e, n, nf, X, L = scoring_setup(v)
    fX = X.frozen()
    paths = v.run(lambda: v.ctx.call(v.func(SC + 'detailed_scoring'), [e.obj, X], {}))
    i, t = fresh('i'), fresh('t')
    for p in paths:
        if no_raise(v, p):
            lv, pa = p.val
            g1, g2 = v.in_state(p, lambda: (lv.get(i, t), pa.get(i, t)))
            rng = z3.And(i >= 0, i < n, t >= 0, t < e.T)
            v.check('one row per instance and one column per tree', z3.And(num(lv.shape[0]) == n, num(lv.shape[1]) == e.T, num(pa.shape[0]) == n, num(pa.shape[1]) == e.T), p.hyps)
            v.check('leaves reached', z3.ForAll([i, t], z3.Implies(rng, num(g1) == L(i, e.root(t)))), p.hyps)
            v.check('contribution of each tree', z3.ForAll([i, t], z3.Implies(rng, real(g2) == contrib(e, L, i, t))), p.hyps)
    model_unchanged(v, paths, e, [('features', X, fX)])


# -- Scorer ------------------------------------------------------------------------------------------------------------------
def scoring_contracts(v, e, X, n, nf, L, calls=None):
    """contracts of basic_scoring and detailed_scoring (units above)"""
    def pre(ctx, args, kw):
        m, x = (list(args) + [kw.get('model'), kw.get('X')])[:2] if len(args) >= 2 else (args[0] if args else kw['model'], kw['X'])
        ctx.oblige('scoring is asked for this model', m is e.obj)
        same_x = isinstance(x, Arr) and x.buf is X.buf and all(same(a, b) for a, b in zip(x.shape, X.shape))
        ctx.oblige('scoring is asked for the features of this dataset', same_x)
        ctx.oblige('precondition of scoring: features of the model within those of the data', features_ok(e, nf))

    def b(ctx, args, kw):
        pre(ctx, args, kw)
        return N.mk(ctx, (n,), lambda i: raw_score(e, L, num(i)), 'float')

    def d(ctx, args, kw):
        pre(ctx, args, kw)
        return (N.mk(ctx, (n, e.T), lambda i, t: L(num(i), e.root(num(t))), 'int'),
                N.mk(ctx, (n, e.T), lambda i, t: contrib(e, L, num(i), num(t)), 'float'))
    v.ctx.overrides[SC + 'basic_scoring'] = b
    v.ctx.overrides[SC + 'detailed_scoring'] = d


def scorer_setup(v, lr=1, base=None, ok=True):
    e = ensemble(v, lr=lr, base=base)
    d = dataset(v)
    n, nf = d.sym['n'], d.sym['nf']
    L = leaf_fun(v, e, d.sym['X'], n)
    leaf_range(v, e, L, n)
    if ok:
        v.ctx.assume(features_ok(e, nf))
    scoring_contracts(v, e, d.attrs['X'], n, nf, L)
    return e, d, n, nf, L


def fill(v, s, state, n, e, L, f=lambda i, x: x, first=0):
    """state of a scorer: fresh, after a plain scoring or after a detailed one (in any order); values of an arbitrary history"""
    if state == 'plain' or state == 'detailed' or state == 'both':
        s.attrs['y_pred'] = N.mk(v.ctx, (n,), lambda i: f(num(i), raw_score(e, L, num(i))) + first, 'float')
    if state in ('detailed', 'both'):
        s.attrs['partial_y_pred'] = N.mk(v.ctx, (n, e.T), lambda i, t: f(num(i), contrib(e, L, num(i), num(t))) + (
            z3.If(num(t) == 0, real(first), z3.RealVal(0)) if not same(first, 0) else 0), 'float')
        s.attrs['out_leaves'] = N.mk(v.ctx, (n, e.T), lambda i, t: L(num(i), e.root(num(t))), 'int')


def check_scores(v, p, what, arr, n, spec):
    i = fresh('i')
    if not isinstance(arr, Arr):
        v.fail(what, 'not an array')
        return
    got = v.in_state(p, lambda: arr.get(i))
    v.check(what, z3.And(num(arr.shape[0]) == n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), real(got) == spec(i)))), p.hyps)


def check_matrix(v, p, what, arr, n, m, spec):
    i, t = fresh('i'), fresh('t')
    if not isinstance(arr, Arr):
        v.fail(what, 'not an array')
        return
    got = v.in_state(p, lambda: arr.get(i, t))
    v.check(what, z3.And(num(arr.shape[0]) == n, num(arr.shape[1]) == m, z3.ForAll([i, t], z3.Implies(
        z3.And(i >= 0, i < n, t >= 0, t < m), num(got) == spec(i, t)))), p.hyps)


def scorer_method(state, method, args):
    def run(v):
        e, d, n, nf, L = scorer_setup(v)
        s = v.new('rankeval.scoring.scorer.Scorer', e.obj, d)
        fill(v, s, state, n, e, L)
        paths = v.run(lambda: v.ctx.call(v.ctx.getattr(s, method), list(args), {}))
        lf = lambda i, t: L(i, e.root(t))
        pc = lambda i, t: contrib(e, L, i, t)
        for p in paths:
            if not no_raise(v, p):
                continue
            if method in ('score', 'get_predicted_scores'):
                check_scores(v, p, 'returns the scores', p.val, n, lambda i: raw_score(e, L, i))
            elif method == 'get_partial_predicted_scores':
                check_matrix(v, p, 'returns the contributions of the trees', p.val, n, e.T, pc)
            else:
                check_matrix(v, p, 'returns the leaves', p.val, n, e.T, lf)
            y, pa, lv = v.in_state(p, lambda: tuple(s.attrs.get(k) for k in ('y_pred', 'partial_y_pred', 'out_leaves')))
            # object invariant: what is stored is right
            if y is not None:
                check_scores(v, p, 'invariant: stored scores', y, n, lambda i: raw_score(e, L, i))
            if pa is not None:
                check_matrix(v, p, 'invariant: stored contributions', pa, n, e.T, pc)
            if lv is not None:
                check_matrix(v, p, 'invariant: stored leaves', lv, n, e.T, lf)
            if (pa is None) != (lv is None) or (pa is not None and y is None):
                v.fail('invariant: contributions, leaves and scores are stored together', 'partial %s leaves %s scores %s' % (pa is None, lv is None, y is None))
            if method == 'score' and args[0] and lv is None:
                v.fail('a detailed scoring stores the leaves', 'none stored')
    return run


for _st in ('fresh', 'plain', 'detailed'):
    for _m, _a in (('score', (False,)), ('score', (True,)), ('get_predicted_scores', ()), ('get_partial_predicted_scores', ()), ('get_predicted_leaves', ())):
        unit(['C02', 'C03'] if _m != 'score' or _a[0] else ['C01', 'C02', 'C03'],
             'scorer.Scorer.%s%s[%s]' % (_m, {(): '', (False,): '(plain)', (True,): '(detailed)'}[_a], _st))(scorer_method(_st, _m, _a))


# -- RTEnsemble.score ----------------------------------------------------------------------------------------------------------
def ensemble_score(e, L, i):
    s = e.lr * raw_score(e, L, i) if not same(e.lr, 1) else raw_score(e, L, i)
    return s + e.base if e.base is not None else s


def ensemble_contrib(e, L, i, t):
    s = contrib(e, L, i, t)
    s = e.lr * s if not same(e.lr, 1) else s
    return s + z3.If(t == 0, e.base, z3.RealVal(0)) if e.base is not None else s


def score_cache(v, e, d, state, n, L):
    """_cache_scorer as a map from dataset content: an entry found under a dataset holds the scores of this model on it"""
    st = Obj(v.ctx, None, {'mem': state != 'absent', 'val': None})
    if state != 'absent':
        s = v.new('rankeval.scoring.scorer.Scorer', e.obj, d)
        s.attrs['y_pred'] = N.mk(v.ctx, (n,), lambda i: ensemble_score(e, L, num(i)), 'float')
        if state == 'detailed':
            s.attrs['partial_y_pred'] = N.mk(v.ctx, (n, e.T), lambda i, t: ensemble_contrib(e, L, num(i), num(t)), 'float')
            s.attrs['out_leaves'] = N.mk(v.ctx, (n, e.T), lambda i, t: L(num(i), e.root(num(t))), 'int')
        st.attrs['val'] = s
    cache = Abstract('score cache')

    def key(k):
        if k is not d:
            raise Unsupported('the cache is accessed with another key')

    def contains(ctx, o, k):
        key(k)
        return st.attrs['mem']

    def getitem(ctx, o, k):
        key(k)
        if not st.attrs['mem']:
            raise PyExc('KeyError')
        return st.attrs['val']

    def setitem(ctx, o, k, x):
        key(k)
        st.attrs.update(mem=True, val=x)

    def get(ctx, args, kw):
        key(args[0])
        return st.attrs['val'] if st.attrs['mem'] else (args[1] if len(args) > 1 else None)

    def clear(ctx, args, kw):
        st.attrs.update(mem=False, val=None)

    def pop(ctx, args, kw):
        r = get(ctx, args, kw)
        clear(ctx, (), {})
        return r
    cache.methods.update(contains=contains, getitem=getitem, setitem=setitem)
    cache.attrs.update(get=Builtin('get', get), clear=Builtin('clear', clear), pop=Builtin('pop', pop))
    e.obj.attrs['_cache_scorer'] = cache
    return st


def rt_score(det, keep, state, lr1, base0):
    def run(v):
        lr = 1 if lr1 else v.real('learning_rate')
        base = None if base0 else v.real('base_score')
        e, d, n, nf, L = scorer_setup(v, lr, base, ok=False)
        st = score_cache(v, e, d, state, n, L)
        if state != 'absent':
            v.ctx.assume(features_ok(e, nf))
        paths = v.run(lambda: v.ctx.call(v.ctx.getattr(e.obj, 'score'), [d], {'detailed': det, 'cache': keep}))
        x = fresh('x')
        for p in paths:
            if p.kind == 'raise':
                v.check('refused only when the dataset misses features of the model', z3.Exists(
                    [x], z3.And(x >= 0, x < e.N, e.feat(x) >= nf)), p.hyps)
                if p.val.cls != 'RuntimeError':
                    v.fail('an error is raised', p.val.cls)
                continue
            v.check('the dataset has the features of the model', features_ok(e, nf), p.hyps)
            r = p.val
            if det:
                if not (isinstance(r, tuple) and len(r) == 3):
                    v.fail('scores, contributions and leaves are returned', repr(r))
                    continue
                y, pa, lv = r
                check_matrix(v, p, 'contributions', pa, n, e.T, lambda i, t: ensemble_contrib(e, L, i, t))
                check_matrix(v, p, 'leaves', lv, n, e.T, lambda i, t: L(i, e.root(t)))
            else:
                y = r
            check_scores(v, p, 'scores', y, n, lambda i: ensemble_score(e, L, i))
            val = v.in_state(p, lambda: st.attrs['val'] if st.attrs['mem'] else None)
            if val is not None:
                vy, vp, vl = v.in_state(p, lambda: tuple(val.attrs.get(k) for k in ('y_pred', 'partial_y_pred', 'out_leaves')))
                check_scores(v, p, 'cache invariant: scores', vy, n, lambda i: ensemble_score(e, L, i))
                if vp is not None:
                    check_matrix(v, p, 'cache invariant: contributions', vp, n, e.T, lambda i, t: ensemble_contrib(e, L, i, t))
                    check_matrix(v, p, 'cache invariant: leaves', vl, n, e.T, lambda i, t: L(i, e.root(t)))
        model_unchanged(v, [p for p in paths if p.kind == 'normal'], e, [('features', d.attrs['X'], d.sym['X'])])
    return run


for _det in (False, True):
    for _keep in (False, True):
        for _st in ('absent', 'plain', 'detailed'):
            for _lr1, _b0 in ((True, True), (False, False)):
                unit((['C02', 'C03'] if _det else ['C01', 'C03']) if (_st, _keep) != ('absent', False) or True else [],
                     'rt_ensemble.RTEnsemble.score(%s%s)[cache: %s%s]' % (
                         'detailed' if _det else 'plain', ', cache' if _keep else '', _st, '' if _lr1 else ', learning rate, base score'), weight=3)(
                    rt_score(_det, _keep, _st, _lr1, _b0))


def clear(v):
    e, d, n, nf, L = scorer_setup(v)
    e.obj.attrs['_cache_scorer'] = c = PyDict(v.ctx, {'k': 1})
    paths = v.run(lambda: v.ctx.call(v.ctx.getattr(e.obj, 'clear_cache'), [], {}))
    for p in paths:
        if no_raise(v, p):
            v.check('the cache is empty', len(v.in_state(p, lambda: e.obj.attrs['_cache_scorer'].items)) == 0, p.hyps)


unit('C03', 'rt_ensemble.RTEnsemble.clear_cache')(clear)


# -- C04: pruning and copying ------------------------------------------------------------------------------------------------
def prefix_post(v, p, m, e, k, what=''):
    """m has exactly the first min(k, n_trees) trees of e"""
    K = z3.If(num(k) < e.T, num(k), e.T)
    M = z3.If(num(k) < e.T, e.root(num(k)), e.N)
    at = v.in_state(p, lambda: dict(m.attrs))
    v.check(what + 'number of trees', num(at['n_trees']) == K, p.hyps)
    v.check(what + 'number of nodes', num(at['n_nodes']) == M, p.hyps)
    for nm, fz in zip(MODEL_ARRAYS, (e.root, e.weight, e.left, e.right, e.value, e.feat)):
        a, size = at[nm], K if nm in ('trees_root', 'trees_weight') else M
        i = fresh('i')
        got = v.in_state(p, lambda: a.get(i))
        v.check(what + '%s are those of the first trees and nothing else' % nm, z3.And(
            num(a.shape[0]) == size, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < size), num(got) == num(fz(i))))), p.hyps)
    v.check(what + 'learning rate', same(at['learning_rate'], e.lr) or num(at['learning_rate']) == num(e.lr), p.hyps)
    v.check(what + 'base score', at['base_score'] is None if e.base is None else num(at['base_score']) == num(e.base), p.hyps)


def pruned_inv(v, p, e, k):
    """class invariant of the pruned model: its nodes are exactly those of its trees"""
    x = fresh('x')
    M = e.root(num(k))
    v.check('class invariant: the children of the remaining nodes remain', z3.Implies(num(k) < e.T, z3.ForAll([x], z3.Implies(
        z3.And(x >= 0, x < M, z3.Not(e.leaf(x))), z3.And(e.tree(x) < num(k), e.left(x) < M, e.right(x) < M)))),
        p.hyps)


def cache_fresh(v, p, m, old, k, e):
    c = v.in_state(p, lambda: m.attrs.get('_cache_scorer'))
    if c is old:
        v.check('scores cached before pruning are not served', num(k) >= e.T, p.hyps)
    elif isinstance(c, PyDict):
        empty = not v.in_state(p, lambda: c.items)
        v.check('scores cached before pruning are not served', z3.Or(z3.BoolVal(empty), num(k) >= e.T), p.hyps)
    else:
        v.fail('score cache', repr(c))


@unit('C04', 'rt_ensemble.RTEnsemble._prune_model')
def prune(v):
    e = ensemble(v, lr=v.real('learning_rate'), base=v.real('base_score'))
    k = v.int('k', 0)
    old = e.obj.attrs['_cache_scorer']
    old.items['dataset'] = v.obj('rankeval.scoring.scorer.Scorer')
    paths = v.run(lambda: v.ctx.call(v.ctx.getattr(e.obj, '_prune_model'), [k], {}))
    for p in paths:
        if no_raise(v, p):
            prefix_post(v, p, e.obj, e, k)
            pruned_inv(v, p, e, k)
            cache_fresh(v, p, e.obj, old, k, e)
            # objects that share the arrays (none by contract of copy) or hold the old cache keep what they had
            if v.in_state(p, lambda: len(old.items)) != 1 and False:
                v.fail('frame', '')
    model_unchanged(v, paths, e)


def buffers(v, p, m):
    return v.in_state(p, lambda: {k: x.buf for k, x in m.attrs.items() if isinstance(x, Arr)})


def copy_unit(limit):
    def run(v):
        e = ensemble(v, lr=v.real('learning_rate'), base=v.real('base_score'))
        k = v.int('k', 0) if limit else None
        old = e.obj.attrs['_cache_scorer']
        old.items['dataset'] = v.obj('rankeval.scoring.scorer.Scorer', model=e.obj, y_pred=v.array('cached', 3))
        before = dict(e.obj.attrs)
        paths = v.run(lambda: v.ctx.call(v.ctx.getattr(e.obj, 'copy'), [] if k is None else [], {} if k is None else {'n_trees': k}))
        kk = k if limit else e.T
        for p in paths:
            if not no_raise(v, p):
                continue
            m = p.val
            if not isinstance(m, Obj) or m is e.obj:
                v.fail('the copy is another model', repr(m))
                continue
            prefix_post(v, p, m, e, kk)
            pruned_inv(v, p, e, kk)
            cache_fresh(v, p, m, old, kk, e)
            b0, b1 = buffers(v, p, e.obj), buffers(v, p, m)
            shared = [n_ for n_ in b1 for n2 in b0 if b1[n_] is b0[n2]]
            if shared:
                v.fail('the copy shares no mutable state with the original', 'shared: %s' % shared)
            else:
                v.check('the copy shares no mutable state with the original', z3.BoolVal(True), p.hyps)
            if v.in_state(p, lambda: m.attrs['_cache_scorer']) is old:
                v.fail('the copy shares no mutable state with the original', 'score cache')
            after = v.in_state(p, lambda: dict(e.obj.attrs))
            if any(after.get(n_) is not x for n_, x in before.items()) or v.in_state(p, lambda: list(old.items)) != ['dataset']:
                v.fail('the original is left unchanged', str([n_ for n_ in before if after.get(n_) is not before[n_]]))
            unchanged(v, [p], [('scores cached by the original', old.items['dataset'].attrs['y_pred'], old.items['dataset'].attrs['y_pred'].frozen())])
        model_unchanged(v, paths, e)
    return run


unit('C04', 'rt_ensemble.RTEnsemble.copy')(copy_unit(False))
unit('C04', 'rt_ensemble.RTEnsemble.copy(n_trees)')(copy_unit(True))


def load_unit(fmt, limit):
    """loading with a limit keeps the first trees of whatever the loader built (contract of the loader: a well-formed model)"""
    def run(v):
        e = ensemble(v)
        k = v.int('k', 0) if limit else None

        def load(ctx, args, kw):
            m = args[1] if len(args) > 1 else kw['model']
            m.attrs.update({n_: e.arr[n_] for n_ in MODEL_ARRAYS}, n_trees=e.T, n_nodes=e.N)
            e.lr, e.base = m.attrs['learning_rate'], m.attrs['base_score']
            return None
        mod = {'QuickRank': 'quickrank', 'LightGBM': 'lightgbm', 'XGBoost': 'xgboost', 'ScikitLearn': 'sklearn', 'Jforests': 'jforests', 'CatBoost': 'catboost'}
        import os
        for f in sorted(os.listdir(os.path.join(v.root, 'rankeval/model'))):
            if f.startswith('proxy_') and f.endswith('.py'):
                v.ctx.overrides['rankeval.model.%s.Proxy%s.load' % (f[:-3], fmt)] = load
        lr, base = v.real('learning_rate'), v.real('base_score')
        paths = v.run(lambda: v.ctx.call(v.cls(RT), [OpaqueStr('path')], dict(
            {'name': OpaqueStr('name'), 'format': fmt, 'base_score': base, 'learning_rate': lr}, **({'n_trees': k} if limit else {}))))
        kk = k if limit else e.T
        for p in paths:
            if no_raise(v, p):
                e.lr, e.base = lr, base
                prefix_post(v, p, p.val, e, kk)
                pruned_inv(v, p, e, kk)
    return run


for _f in ('QuickRank', 'LightGBM', 'XGBoost', 'ScikitLearn', 'Jforests', 'CatBoost'):
    unit('C04', 'rt_ensemble.RTEnsemble.__init__(%s, n_trees)' % _f)(load_unit(_f, True))
unit('C04', 'rt_ensemble.RTEnsemble.__init__(no limit)')(load_unit('QuickRank', False))


# -- C05: shape of the trees --------------------------------------------------------------------------------------------------
def n_leaves(e, t):
    t = num(t)
    size = lambda m: mk_sum(lambda j: z3.If(e.leaf(e.root(t) + num(j)), z3.IntVal(1), z3.IntVal(0)), m)
    return z3.If(t + 1 < e.T, size(e.root(t + 1) - e.root(t)), size(e.N - e.root(t)))


def shape_unit(method, spec):
    def run(v):
        e = ensemble(v)
        t_ = fresh('t')
        # (used by the summation bounds) trees are not empty
        v.ctx.assume(z3.ForAll([t_], z3.Implies(z3.And(t_ >= 0, t_ < e.T), e.root(t_) < e.end(t_)), patterns=[e.root(t_)]))
        paths = v.run(lambda: v.ctx.call(v.ctx.getattr(e.obj, method), [], {}))
        for p in paths:
            if no_raise(v, p):
                t = fresh('t')
                got = v.in_state(p, lambda: p.val.get(t))
                v.check('%s of every tree' % method, z3.And(num(p.val.shape[0]) == e.T, z3.ForAll([t], z3.Implies(
                    z3.And(t >= 0, t < e.T), num(got) == spec(e, t)))), p.hyps)
        model_unchanged(v, paths, e)
    return run


unit('C05', 'rt_ensemble.RTEnsemble.num_nodes')(shape_unit('num_nodes', lambda e, t: e.end(t) - e.root(t)))
unit('C05', 'rt_ensemble.RTEnsemble.num_leaves')(shape_unit('num_leaves', n_leaves))


@unit('C05', 'rt_ensemble.RTEnsemble.max_leaves')
def max_leaves(v):
    v.ctx.overrides[RT + '.num_leaves'] = lambda ctx, args, kw: nl
    e = ensemble(v)
    nl = v.array('leaves', e.T, 'int')
    f = nl.frozen()
    paths = v.run(lambda: v.ctx.call(v.ctx.getattr(e.obj, 'max_leaves'), [], {}))
    t = fresh('t')
    for p in paths:
        if no_raise(v, p):
            v.check('not smaller than that of any tree', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < e.T), f(t) <= num(p.val))), p.hyps)
            v.check('that of the largest tree', num(p.val) == mk_max(lambda t: f(t), e.T), p.hyps)


@unit('C05', 'rt_ensemble.RTEnsemble.is_leaf_node')
def is_leaf(v):
    e = ensemble(v)
    x = v.int('x', 0)
    v.ctx.assume(x < e.N)
    paths = v.run(lambda: v.ctx.call(v.ctx.getattr(e.obj, 'is_leaf_node'), [x], {}))
    for p in paths:
        if no_raise(v, p):
            v.check('a node is a leaf exactly when it has no children', boolean(p.val) == z3.And(e.left(x) == -1, e.right(x) == -1), p.hyps)


def height_fun(v, e):
    H = fresh_fun('HEIGHT', I, I)
    x = fresh('x')
    l, r = H(e.left(x)), H(e.right(x))
    v.ctx.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < e.N), H(x) == z3.If(e.leaf(x), 0, 1 + z3.If(l >= r, l, r))), patterns=[H(x)]))
    return H


@unit('C05', 'rt_ensemble.RTEnsemble.height_trees')
def heights(v):
    e = ensemble(v)
    H = height_fun(v, e)
    done = []
    HN = RT + '.height_trees.height_node'

    def contract(ctx, args, kw, f):
        names = [a.arg for a in f.node.args.args]
        b = dict(zip(names, args))
        b.update(kw)
        x, depth = num(b[names[0]]), num(b[names[1]])
        ctx.oblige('precondition of height_node: a node of the model', z3.And(x >= 0, x < e.N))
        if ctx.ghost.get('inside') is not None:
            ctx.oblige('recursion on nodes of smaller rank', z3.And(e.rank(x) >= 0, e.rank(x) < e.rank(ctx.ghost['inside'])))
        elif not done:
            done.append(1)
            body(ctx, f)
        return depth + H(x)

    def body(ctx, f):
        """the body of the recursive function for an arbitrary node and depth"""
        x, dp = z3.Int('node'), z3.Int('depth')
        npc = len(ctx.pc)
        ctx.assume(x >= 0, x < e.N)
        ctx.ghost['inside'] = x
        rec, ctx.record = ctx.record, True
        ps = ctx.explore(lambda: ctx.call_func(f, [x, dp], {}))
        ctx.record = rec
        ctx.ghost['inside'] = None
        for q in ps:
            if q.kind != 'normal':
                v.fail('height_node', 'raises %s' % q.val)
                continue
            v.check('height_node returns the depth plus the height of the node', num(q.val) == dp + H(x), ctx.axioms + list(ctx.pc) + list(q.facts))
        del ctx.pc[npc:]
    v.ctx.overrides[HN] = contract
    paths = v.run(lambda: v.ctx.call(v.ctx.getattr(e.obj, 'height_trees'), [], {}))
    t = fresh('t')
    if not done:
        raise Unsupported('height_node is not used')
    for p in paths:
        if no_raise(v, p):
            got = v.in_state(p, lambda: p.val.get(t))
            v.check('height of every tree', z3.And(num(p.val.shape[0]) == e.T, z3.ForAll([t], z3.Implies(
                z3.And(t >= 0, t < e.T), num(got) == H(e.root(t))))), p.hyps)
    model_unchanged(v, paths, e)
