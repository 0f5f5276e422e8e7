"""C29-C34: the loaders of models.

A file is given by ghost functions: T trees, tree t has NN(t) nodes, ROOT(t) is the number of nodes of the trees before it; the
text of the file is the format's rendering of these functions.  The loops over a file are cut by invariants about the arrays of
the model at one arbitrary tree t0 and arbitrary nodes of it (universally quantified as constants); the values of the local
variables at the start of a tree are found among ROOT(k), the sizes of the tree and k (those that are not inductive are dropped)."""
from contracts.common import *
import vcg.npmodel as N
from vcg.interp import Flag

PX = 'rankeval.model.proxy_'
RT = 'rankeval.model.rt_ensemble.RTEnsemble'
PATH = SymStr(('atom', 'file_path'))


def fun(name, *args):
    f = opaque(name, *([I] * (len(args) or 1) + [I]))
    return f


def rfun(name, k=2):
    return opaque(name, *([I] * k + [R]))


F32 = opaque('F32', R, R)        # rounding to single precision
PREV32 = opaque('PREV32', R, R)  # the largest single-precision number below
SINGLE_OF = lambda x: F32(real(x))


def single_precision(v):
    """np.float32 rounds (idempotent); np.nextafter towards -infinity in single precision is PREV32"""
    c = v.ctx

    def f32(ctx, a, k):
        x = N.b_float(ctx, a[:1], {})
        y = F32(real(x))
        ctx.assume(F32(y) == y)
        return y

    def nextafter(ctx, a, k):
        x, d = real(num(a[0])), a[1]
        dt = k.get('dtype', a[2] if len(a) > 2 else None)
        if not (is_z3(num(d)) and same(real(num(d)), -N.INF)):
            raise Unsupported('direction of nextafter')
        if not (isinstance(dt, Extern) and dt.path == 'numpy.float32'):
            raise Unsupported('precision of nextafter')
        y = PREV32(F32(x))
        ctx.assume(F32(y) == y)
        return y
    c.overrides['numpy.float32'] = f32
    c.overrides['numpy.nextafter'] = nextafter


class Forest:
    """ghost description of the trees of a file"""

    def __init__(self, v, nodes):
        c = self.c = v.ctx
        self.v = v
        single_precision(v)
        self.T = v.int('T', 1)
        self.ROOT = opaque('ROOT', I, I)
        self.NN = nodes
        self.t0 = z3.Int('t0')
        a, b = z3.Ints('tree_a tree_b')
        # lemma, by induction on b
        base = [self.ROOT(0) == 0, self.ROOT(b + 1) == self.ROOT(b) + nodes(b), nodes(b) >= 1]
        v.check('lemma (induction): the trees are laid out one after the other', z3.Implies(z3.And(a >= 0, a <= b + 1), self.ROOT(a) <= self.ROOT(b + 1)), [],
                plain=base + [b >= 0, z3.Implies(a <= b, self.ROOT(a) <= self.ROOT(b))])
        c.assume(self.ROOT(0) == 0)

    def facts(self, k):
        """definition of ROOT at k and instances of the lemma"""
        k = num(k)
        R_, NN, T, t0 = self.ROOT, self.NN, self.T, self.t0
        return [R_(k + 1) == R_(k) + NN(k), z3.Implies(k >= 1, R_(k) == R_(k - 1) + NN(k - 1)), NN(k) >= 1, R_(k) >= 0, z3.Implies(k < T, R_(k + 1) <= R_(T)), R_(T) >= 1,
                z3.Implies(z3.And(t0 >= 0, t0 < T), z3.And(R_(t0) >= 0, NN(t0) >= 1, R_(t0) + NN(t0) <= R_(T))),
                z3.Implies(z3.And(t0 >= 0, t0 < k), R_(t0) + NN(t0) <= R_(k)), z3.Implies(k < t0, R_(k) + NN(k) <= R_(t0))]


def element(tag, text=None, attrib=None, c=None):
    """an XML element; its text is complete at its end event; clear() empties it"""
    st = dict(cleared=False, ended=False)

    def get_text(ctx):
        if not st['ended']:
            raise Unsupported('text of an element that is not complete')
        return None if st['cleared'] else text

    def clear(ctx, o):
        st['cleared'] = True
    e = Abstract('element', dict(tag=tag, text=get_text, attrib=lambda ctx: PyDict(ctx, {} if st['cleared'] else dict(attrib or {}))),
                 dict(clear=clear, get=lambda ctx, o, k, d=None: None if st['cleared'] else (attrib or {}).get(k, d), find=lambda ctx, o, k: unsup('find')))
    e.st = st
    return e


def unsup(w):
    raise Unsupported(w)


def leaf_events(tag, text=None, attrib=None):
    e = element(tag, text, attrib)
    return [('start', e), ('end', e)]


def xml_file(v, header, trees, footer, path=PATH):
    """iterparse of a document: header events, then trees(ctx, emit) runs the loop over the trees, then footer events"""
    def iterparse(ctx, a, k):
        if not (isinstance(a[0], SymStr) and a[0].same(path)):
            ctx.oblige('the file that is read is the one given', z3.BoolVal(False))
        evs = k.get('events', a[1] if len(a) > 1 else None)
        evs = ('end',) if evs is None else tuple(ctx.seq(evs)[1](i) for i in range(conc_len(ctx, evs)))
        taken = PyList(ctx, [])

        def show(e):
            if e[0] == 'end':
                e[1].st['ended'] = True
            return e[0] in evs
        head = header()

        def nxt(ctx, o, *d):
            n = len(taken.items)
            for q, e in enumerate(head):
                if q >= n:
                    taken.raw = taken.raw + [q]
                    if show(e):
                        return e
            raise Unsupported('event beyond the header')

        def loop(ctx, o, one, fr, where):
            def emit(e):
                if show(e):
                    one(e)
            for e in head[len(taken.items):]:
                emit(e)
            trees(ctx, emit, fr, where)
            for e in footer(head):
                emit(e)
        return Abstract('events', {}, {'next': nxt, 'for': loop, '__next__': nxt})
    for q in ('xml.etree.cElementTree.iterparse', 'xml.etree.ElementTree.iterparse'):
        v.ctx.overrides[q] = iterparse


def conc_len(ctx, s):
    n = ctx.seq(s)[0]
    n = n if isinstance(n, int) else z3.simplify(num(n)).as_long()
    return n


def text_file(v, header, trees, footer, path=PATH):
    """a text file opened for reading: header lines, the lines of the trees, footer lines"""
    def open_(ctx, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if not (isinstance(a[0], SymStr) and a[0].same(path)):
            ctx.oblige('the file that is read is the one given', z3.BoolVal(False))
        if mode not in ('r', 'rt'):
            raise Unsupported('mode of the file')

        def loop(ctx, o, one, fr, where):
            for l in header:
                one(l)
            trees(ctx, one, fr, where)
            for l in footer:
                one(l)
        f = Abstract('file', {}, {'for': loop, 'close': lambda ctx, o: None})
        f.methods['readlines'] = lambda ctx, o: Abstract('lines', {}, {'for': loop})
        return f
    v.ctx.overrides['open'] = open_


def new_model(v):
    return v.obj(RT)


def arr(m, name):
    a = m.attrs.get('trees_' + name)
    if not isinstance(a, Arr):
        raise Unsupported('arrays of the model')
    return a


def same32(x, y):
    """equal in single precision"""
    return F32(real(x)) == F32(real(y))


ARRAYS = ('root', 'weight', 'left_child', 'right_child', 'nodes_value', 'nodes_feature')


def at(m, name, x):
    return num(arr(m, name).get(x))


def sizes(v, p, fo, m):
    """numbers of trees and nodes, lengths of the arrays"""
    goal = []
    for nm in ARRAYS:
        a = v.in_state(p, lambda: arr(m, nm))
        goal.append(num(a.shape[0]) == (fo.T if nm in ('root', 'weight') else fo.ROOT(fo.T)))
    v.check('one cell per tree and per node', z3.And(*goal), p.hyps)
    v.check('number of trees and of nodes', v.in_state(p, lambda: z3.And(num(m.attrs['n_trees']) == fo.T, num(m.attrs['n_nodes']) == fo.ROOT(fo.T))), p.hyps)


def count_contract(v, cls, fo):
    """callers of _count_nodes"""
    def h(ctx, a, k):
        if not (a and isinstance(a[0], SymStr) and a[0].same(PATH)):
            ctx.oblige('the nodes counted are those of the file given', z3.BoolVal(False))
        return (fo.T, fo.ROOT(fo.T))
    v.ctx.overrides[cls + '._count_nodes'] = h


def run_count(v, cls, fo, arg=PATH):
    f = v.func(cls + '._count_nodes')
    paths = v.run(lambda: v.ctx.call(f, [arg], {}))
    for p in paths:
        if no_raise(v, p):
            t, n = p.val
            v.check('number of trees', num(t) == fo.T, p.hyps)
            v.check('number of nodes', num(n) == fo.ROOT(fo.T), p.hyps)


# ----------------------------------------------------------------------------------------- arrays of children (Jforests, LightGBM)

class SplitLeaf:
    """trees given by NS splits and NL leaves: features, thresholds, children (>= 0 split, < 0 leaf -c-1), leaf values"""

    def __init__(self, v):
        self.NS, self.NL = fun('NS'), fun('NL')
        self.F, self.L, self.R = [opaque(x, I, I, I) for x in ('F', 'LC', 'RC')]
        self.TH, self.LV = rfun('TH'), rfun('LV')
        self.W = rfun('W', 1)
        self.fo = Forest(v, lambda t: self.NS(t) + self.NL(t))
        self.p0, self.q0 = z3.Ints('p0 q0')

    def facts(self, k):
        t0 = self.fo.t0
        return self.fo.facts(k) + [self.NS(k) >= 1, self.NL(k) >= 1, self.NS(t0) >= 1, self.NL(t0) >= 1]

    def cands(self, k):
        k = num(k)
        return [self.fo.ROOT(k), k, self.NS(k), self.NL(k), k - 1, self.fo.ROOT(k + 1)]

    def child(self, t, c):
        """node of the model for the child number c of the file"""
        return self.fo.ROOT(t) + z3.If(c >= 0, c, self.NS(t) - c - 1)

    def contents(self, m, k, weight):
        """what the arrays hold for tree t0 (a list of formulas), when the trees before k have been read"""
        fo, t0, p, q = self.fo, self.fo.t0, self.p0, self.q0
        r = fo.ROOT(t0)
        x, y = r + p, r + self.NS(t0) + q
        ins = z3.And(p >= 0, p < self.NS(t0))
        inl = z3.And(q >= 0, q < self.NL(t0))
        done = z3.And(t0 >= 0, t0 < k)
        todo = z3.And(t0 >= k, t0 < fo.T)
        return [('root', z3.Implies(done, at(m, 'root', t0) == r)), ('weight', z3.Implies(done, same32(at(m, 'weight', t0), weight(t0)))),
                ('feature of a split', z3.Implies(z3.And(done, ins), at(m, 'nodes_feature', x) == self.F(t0, p))),
                ('threshold of a split', z3.Implies(z3.And(done, ins), same32(at(m, 'nodes_value', x), self.TH(t0, p)))),
                ('left child of a split', z3.Implies(z3.And(done, ins), at(m, 'left_child', x) == self.child(t0, self.L(t0, p)))),
                ('right child of a split', z3.Implies(z3.And(done, ins), at(m, 'right_child', x) == self.child(t0, self.R(t0, p)))),
                ('value of a leaf', z3.Implies(z3.And(done, inl), same32(at(m, 'nodes_value', y), self.LV(t0, q)))),
                ('leaves have no children', z3.Implies(z3.And(z3.Or(done, todo), inl), z3.And(at(m, 'left_child', y) == -1, at(m, 'right_child', y) == -1))),
                ('leaves have no feature', z3.Implies(z3.And(z3.Or(done, todo), inl), at(m, 'nodes_feature', y) == -1))]


    def lemmas(self, v, p, m):
        """consequences for tree t0, split p0, leaf q0 (children numbers in range in a well-formed file)"""
        fo, t0, x0 = self.fo, self.fo.t0, self.p0
        r, ns, nl = fo.ROOT(t0), self.NS(t0), self.NL(t0)
        cl, cr = self.L(t0, x0), self.R(t0, x0)
        X = z3.Function('feature_value', I, R)
        rng = [t0 >= 0, t0 < fo.T, x0 >= 0, x0 < ns, cl >= -nl, cl < ns, cr >= -nl, cr < ns]
        x = r + x0

        def g():
            l, rr, val, feat = at(m, 'left_child', x), at(m, 'right_child', x), at(m, 'nodes_value', x), at(m, 'nodes_feature', x)
            nxt = z3.If(X(feat) <= F32(val), l, rr)
            want = z3.If(X(self.F(t0, x0)) <= F32(self.TH(t0, x0)), cl, cr)
            node = lambda c: r + z3.If(c >= 0, c, ns + (-c - 1))
            return [('class invariant: the children of a split are nodes of its tree', z3.And(l >= r, l < r + ns + nl, rr >= r, rr < r + ns + nl)),
                    ('class invariant: splits are not leaves', z3.Not(z3.And(l == -1, rr == -1))),
                    ('a step of the traversal goes to the node of the child the file prescribes', nxt == node(want))]
        return [(w, z3.Implies(z3.And(*rng), f), []) for w, f in v.in_state(p, g)]


def jforests(v, m=None, counting=False):
    s = SplitLeaf(v)

    def toks(kind, n, f):
        return lambda t: Toks(n(t), lambda i: Tok(kind, f(t, num(i))))

    def tree_events(t):
        e = element('Tree', None, dict(id=Tok('int', num(t) + 1), weight=Tok('float', s.W(t))))
        rt = element('RegressionTree', None, dict(leaves=Tok('int', s.NL(t))))
        ORI = rfun('BINNED')
        out = [('start', e), ('start', rt)]
        for tag, tx in (('SplitFeatures', toks('int', s.NS, s.F)), ('LeftChildren', toks('signed', s.NS, s.L)), ('RightChildren', toks('signed', s.NS, s.R)),
                        ('Thresholds', toks('int', s.NS, opaque('BINNED', I, I, I))), ('OriginalThresholds', toks('float', s.NS, s.TH)),
                        ('LeafOutputs', toks('float', s.NL, s.LV))):
            out += leaf_events(tag, tx(t))
        return out + [('end', rt), ('end', e)]

    def trees(ctx, emit, fr, where):
        def body(k):
            for e in tree_events(num(k)):
                emit(e)

        def inv(k, bufs):
            return [f for _, f in s.contents(m, num(k), s.W)] if m is not None and not counting else []
        ctx.spec_loop(s.fo.T, body, fr, inv, s.cands, where=where, name='trees of the file', facts=s.facts)

    def header():
        root = element('Ensemble', None, {})
        return [('start', root)]
    xml_file(v, header, trees, lambda head: [('end', head[0][1])])
    return s


JF = PX + 'Jforests.ProxyJforests'


@unit('C33', 'proxy_Jforests.ProxyJforests._count_nodes')
def jforests_count(v):
    s = jforests(v, counting=True)
    run_count(v, JF, s.fo)


@unit('C33', 'proxy_Jforests.ProxyJforests.load', weight=2)
def jforests_load(v):
    m = new_model(v)
    s = jforests(v, m)
    count_contract(v, JF, s.fo)
    load_post(v, JF, m, s, s.W)


def load_post(v, cls, m, s, weight, refused=None):
    """refused: (exception, conditions under which it may not be raised)"""
    f = v.func(cls + '.load')
    fo = s.fo
    v.ctx.assume(*s.facts(fo.T - 1))
    paths = v.run(lambda: v.ctx.call(f, [PATH, m], {}))
    for p in paths:
        if refused is not None and p.kind == 'raise' and p.val.cls == refused[0]:
            v.check('no supported model is refused', z3.BoolVal(False), p.hyps + refused[1])
            continue
        if not no_raise(v, p):
            continue
        sizes(v, p, fo, m)
        for what, g in v.in_state(p, lambda: s.contents(m, fo.T, weight)):
            v.check('every tree: ' + what, g, p.hyps)
        for what, g, ex in s.lemmas(v, p, m):
            v.check(what, g, p.hyps + ex)


# ------------------------------------------------------------------------------------------------------------------- LightGBM

LG = PX + 'LightGBM.ProxyLightGBM'


def word(*samples):
    return Tok('word', None, samples)


def lightgbm(v, m=None, counting=False, old=False):
    s = SplitLeaf(v)
    s.DT, s.DV, s.CAT = opaque('DECISION', I, I, I), rfun('DEFAULT'), fun('CATEGORICAL')
    names = Toks(fun('NF')(0), lambda i: word('Column_0', 'f_17', 'query_norm'))

    def per(key, kind, n, f):
        return lambda t: Line(key + '=', Toks(n(t), lambda i: Tok(kind, f(t, num(i)))), '\n')
    junk_r, junk_i = rfun('OTHER_FLOAT'), opaque('OTHER_INT', I, I, I)

    def tree_lines(t):
        ls = [Line('Tree=', Tok('int', t), '\n'), Line('num_leaves=', Tok('int', s.NL(t)), '\n')]
        if not old:
            ls.append('num_cat=0\n')
        ls += [per('split_feature', 'int', s.NS, s.F)(t), per('split_gain', 'float', s.NS, junk_r)(t), per('threshold', 'float', s.NS, s.TH)(t),
               per('decision_type', 'int', s.NS, s.DT)(t)]
        if old:
            ls.append(per('default_value', 'float', s.NS, s.DV)(t))
        ls += [per('left_child', 'signed', s.NS, s.L)(t), per('right_child', 'signed', s.NS, s.R)(t), per('leaf_parent', 'int', s.NL, junk_i)(t),
               per('leaf_value', 'float', s.NL, s.LV)(t), per('leaf_count', 'int', s.NL, junk_i)(t), per('internal_value', 'float', s.NS, junk_r)(t),
               per('internal_count', 'int', s.NS, junk_i)(t)]
        if old:
            ls.append(Line('has_categorical=', Tok('int', s.CAT(t), ('0', '1')), '\n'))
        return ls + [Line('shrinkage=', Tok('float', junk_r(t, 0), ('0.05', '1', '0.1', '1e-02')), '\n'), '\n']
    s.old = old

    def supported(k):
        t0, p = s.fo.t0, s.p0
        c = s.DT(t0, p) == 2
        if old:
            c = z3.And(c, s.DV(t0, p) == 0, s.CAT(t0) == 0)
        return z3.Implies(z3.And(t0 >= 0, t0 < k, p >= 0, p < s.NS(t0)), c)
    base = s.contents
    s.contents = lambda m, k, weight: base(m, k, weight) + [('only supported models are loaded', supported(k))]

    def trees(ctx, one, fr, where):
        def body(k):
            for l in tree_lines(num(k)):
                one(l)

        def inv(k, bufs):
            return [f for _, f in s.contents(m, num(k), lambda t: z3.RealVal(1))] if m is not None and not counting else []
        ctx.spec_loop(s.fo.T, body, fr, inv, s.cands, where=where, name='trees of the file', facts=s.facts)
    header = ['tree\n', Line('num_class=1\n'), 'label_index=0\n', Line('max_feature_idx=', Tok('int', fun('MF')(0)), '\n'), 'objective=lambdarank\n',
              Line('feature_names=', names, '\n'), Line('feature_infos=', Toks(fun('NF')(0), lambda i: word('[0:1]', '[-1.5:3.25e+05]', 'none')), '\n'), '\n']
    footer = ['feature importances:\n', Line(word('Column_0', 'Column_17'), '=', Tok('int', fun('IMPORTANCE')(0)), '\n'), '\n']
    text_file(v, header, trees, footer)
    v.ctx.assume(fun('NF')(0) >= 1)
    return s


def lightgbm_units(old):
    tag = ' (default_value, has_categorical)' if old else ' (num_cat)'

    @unit('C30', 'proxy_LightGBM.ProxyLightGBM._count_nodes' + tag)
    def count(v):
        s = lightgbm(v, counting=True, old=old)
        run_count(v, LG, s.fo)

    @unit('C30', 'proxy_LightGBM.ProxyLightGBM.load' + tag, weight=2)
    def load(v):
        m = new_model(v)
        s = lightgbm(v, m, old=old)
        count_contract(v, LG, s.fo)
        t, p = z3.Ints('any_t any_p')
        ok = [z3.ForAll([t, p], z3.Implies(z3.And(t >= 0, t < s.fo.T, p >= 0, p < s.NS(t)), s.DT(t, p) == 2), patterns=[s.DT(t, p)])]
        if old:
            ok += [z3.ForAll([t, p], z3.Implies(z3.And(t >= 0, t < s.fo.T, p >= 0, p < s.NS(t)), s.DV(t, p) == 0), patterns=[s.DV(t, p)]),
                   z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < s.fo.T), s.CAT(t) == 0), patterns=[s.CAT(t)])]
        load_post(v, LG, m, s, lambda t: z3.RealVal(1), refused=('AssertionError', ok))


lightgbm_units(False)
lightgbm_units(True)


# ------------------------------------------------------------------------------------------------ trees listed depth first, left first

class Preorder:
    """trees given in preorder: node p of tree t is a leaf or a split whose left subtree starts at p + 1 and whose right subtree
    starts where the left one ends; END(t, p): end of the subtree of p; NID: number of the node in the model"""

    def __init__(self, v, numbered):
        self.v, self.c = v, v.ctx
        self.NN = fun('NN')
        self.LEAF = opaque('LEAF', I, I, B)
        self.END, self.PAR, self.F = [opaque(x, I, I, I) for x in ('END', 'PARENT', 'FEATURE')]
        self.ISL = opaque('ISLEFT', I, I, B)
        self.TH, self.LV = rfun('TH'), rfun('LV')
        self.ID = opaque('NODE_ID', I, I, I)
        self.NID = (lambda t, p: self.ID(t, p)) if numbered else (lambda t, p: p)
        self.numbered = numbered
        self.fo = Forest(v, lambda t: self.NN(t))
        self.p0 = z3.Int('p0')
        # pending children: SP of them before node p, item j is child ISL of node ON
        self.SP = opaque('PENDING', I, I, I)
        self.ON, self.OL = opaque('PENDING_OF', I, I, I, I), opaque('PENDING_LEFT', I, I, I, B)
        self.current = []
        self.lemma()

    def wf(self, t, p):
        """node p of tree t in a well-formed file"""
        E, NN = self.END, self.NN(t)
        inn = z3.And(p >= 0, p < NN)
        r = E(t, p + 1)
        par = self.PAR(t, p)
        out = [E(t, 0) == NN, NN >= 1, z3.Implies(inn, z3.And(E(t, p) > p, E(t, p) <= NN)),
               z3.Implies(z3.And(inn, self.LEAF(t, p)), E(t, p) == p + 1),
               z3.Implies(z3.And(inn, z3.Not(self.LEAF(t, p))), z3.And(p + 1 < NN, r > p + 1, r < NN, E(t, p) == E(t, r), self.PAR(t, p + 1) == p, self.ISL(t, p + 1),
                                                                   self.PAR(t, r) == p, z3.Not(self.ISL(t, r)), E(t, r) > r)),
               z3.Implies(z3.And(inn, p > 0), z3.And(par >= 0, par < p, z3.Not(self.LEAF(t, par)), p == z3.If(self.ISL(t, p), par + 1, E(t, par + 1))))]
        return out

    def numbers(self, t, ps):
        """node numbers are distinct"""
        if not self.numbered:
            return []
        NN = self.NN(t)
        inn = lambda p: z3.And(p >= 0, p < NN)
        out = [z3.Implies(inn(p), z3.And(self.ID(t, p) >= 0, self.ID(t, p) < NN)) for p in ps]
        for a in range(len(ps)):
            for b in range(a):
                out.append(z3.Implies(z3.And(inn(ps[a]), inn(ps[b]), self.ID(t, ps[a]) == self.ID(t, ps[b])), ps[a] == ps[b]))
        return out

    def start(self, t, p, j):
        """position of the pending child number j before node p"""
        o = self.ON(t, p, j)
        return z3.If(self.OL(t, p, j), o + 1, self.END(t, o + 1))

    def stack_step(self, t, p, js):
        """definition of the pending children after node p, at the indices js"""
        n1 = z3.If(self.SP(t, p) > 0, self.SP(t, p) - 1, 0)
        out = [self.SP(t, 0) == 0, self.SP(t, p + 1) == n1 + z3.If(self.LEAF(t, p), 0, 2)]
        for j in js:
            out += [self.ON(t, p + 1, j) == z3.If(j < n1, self.ON(t, p, j), p), self.OL(t, p + 1, j) == z3.If(j < n1, self.OL(t, p, j), j == n1 + 1)]
        return out

    def good(self, t, p, j):
        """the pending children before node p: splits that come before; the next one starts at p, each one starts where the one above it ends"""
        SP, E, NN = self.SP(t, p), self.END, self.NN(t)
        top = SP - 1
        item = lambda j: z3.Implies(z3.And(j >= 0, j < SP), z3.And(self.ON(t, p, j) >= 0, self.ON(t, p, j) < p, z3.Not(self.LEAF(t, self.ON(t, p, j)))))
        return [SP >= 0, item(j), z3.Implies(z3.And(p >= 1, SP >= 1), z3.And(item(top), self.start(t, p, top) == p)),
                z3.Implies(z3.And(j >= 0, j < SP - 1), self.start(t, p, j) == E(t, self.start(t, p, j + 1))),
                z3.Implies(SP >= 1, E(t, self.start(t, p, 0)) == NN), z3.Implies(z3.And(p >= 1, SP == 0), p == NN), z3.Implies(p == 0, SP == 0)]

    def lemma(self):
        v, t, p, j = self.v, z3.Int('lemma_t'), z3.Int('lemma_p'), z3.Int('lemma_j')
        n1 = z3.If(self.SP(t, p) > 0, self.SP(t, p) - 1, 0)
        js = [j, j + 1, n1 - 1, n1, n1 + 1, z3.IntVal(0), self.SP(t, p) - 1, self.SP(t, p + 1) - 1]
        hyp = [p >= 0, p < self.NN(t)] + self.wf(t, p) + self.wf(t, p + 1)
        for q in (j, n1 - 1, z3.IntVal(0)):
            hyp += self.good(t, p, q)
        hyp += self.stack_step(t, p, js)
        for a, g in enumerate(self.good(t, p + 1, j)):
            v.check('lemma (induction over the nodes): pending children %d' % a, g, [], plain=hyp)
        for a, g in enumerate(self.good(t, z3.IntVal(0), j)):
            v.check('lemma (induction over the nodes, first node): pending children %d' % a, g, [], plain=[self.SP(t, 0) == 0, self.NN(t) >= 1])
        # a node that is not the root is the child on top of the pending ones; none is pending at the end
        g = self.good(t, p, j)
        top = self.SP(t, p) - 1
        more = self.good(t, p, top) + self.wf(t, self.ON(t, p, top)) + self.wf(t, p)
        v.check('lemma: the child on top of the pending ones is the next node', z3.Implies(z3.And(p >= 1, p < self.NN(t)), z3.And(*self.popped(t, p))), [], plain=more + [p >= 0])
        v.check('lemma: no child is pending at the end of a tree', z3.Implies(p == self.NN(t), self.SP(t, p) == 0), [], plain=more + [p >= 1])

    def popped(self, t, p):
        top = self.SP(t, p) - 1
        return [self.SP(t, p) >= 1, self.ON(t, p, top) == self.PAR(t, p), self.OL(t, p, top) == self.ISL(t, p)]

    def tree_facts(self, k):
        t0, p0 = self.fo.t0, self.p0
        return self.fo.facts(k) + [self.SP(k, 0) == 0, self.SP(k, self.NN(k)) == 0] + self.wf(t0, p0) + self.wf(t0, self.PAR(t0, p0)) + \
            self.numbers(t0, [p0, self.PAR(t0, p0)])

    def node_facts(self, t, p):
        t0, p0 = self.fo.t0, self.p0
        return self.stack_step(t, p, []) + \
            [z3.Implies(z3.And(p >= 1, p < self.NN(t)), z3.And(*self.popped(t, p))), z3.Implies(p == 0, self.SP(t, p) == 0), self.SP(t, p) >= 0] + \
            self.wf(t, p) + self.wf(t0, p0) + self.numbers(t, [p, self.PAR(t, p)]) + \
            [z3.Implies(t == t0, z3.And(*(self.numbers(t, [p, self.PAR(t, p), p0, self.PAR(t, p0)]) or [z3.BoolVal(True)])))]

    def node(self, t, p):
        return self.fo.ROOT(t) + self.NID(t, p)

    def threshold(self, t, p):
        return self.TH(t, p)

    def weight(self, t):
        return z3.RealVal(1)

    def children(self, t, p):
        """left and right child of a split"""
        return p + 1, self.END(t, p + 1)

    def contents(self, m, k, p, read):
        """what the arrays hold for tree t0 and its node p0 when the trees before k have been read, and (p not None) the nodes before p of tree k"""
        t0, p0 = self.fo.t0, self.p0
        if p is None:
            tree, nd = z3.And(t0 >= 0, t0 < k), z3.And(t0 >= 0, t0 < k)
        else:
            tree, nd = z3.And(t0 >= 0, t0 <= k), z3.And(t0 >= 0, z3.Or(t0 < k, z3.And(t0 == k, p0 < p)))
        inn = z3.And(p0 >= 0, p0 < self.NN(t0), t0 >= 0, t0 < self.fo.T)
        x, par = self.node(t0, p0), self.node(t0, self.PAR(t0, p0))
        leaf = self.LEAF(t0, p0)
        return [('root', z3.Implies(tree, at(m, 'root', t0) == self.fo.ROOT(t0))), ('weight', z3.Implies(tree, same32(at(m, 'weight', t0), self.weight(t0)))),
                ('feature of a split', z3.Implies(z3.And(nd, inn, z3.Not(leaf)), at(m, 'nodes_feature', x) == self.F(t0, p0))),
                ('threshold of a split', z3.Implies(z3.And(nd, inn, z3.Not(leaf)), same32(at(m, 'nodes_value', x), self.threshold(t0, p0)))),
                ('value of a leaf', z3.Implies(z3.And(nd, inn, leaf), same32(at(m, 'nodes_value', x), self.LV(t0, p0)))),
                ('left child', z3.Implies(z3.And(nd, inn, p0 >= 1, self.ISL(t0, p0)), at(m, 'left_child', par) == x)),
                ('right child', z3.Implies(z3.And(nd, inn, p0 >= 1, z3.Not(self.ISL(t0, p0))), at(m, 'right_child', par) == x)),
                ('leaves have no children', z3.Implies(z3.And(inn, leaf), z3.And(at(m, 'left_child', x) == -1, at(m, 'right_child', x) == -1))),
                ('leaves have no feature', z3.Implies(z3.And(inn, leaf), at(m, 'nodes_feature', x) == -1))]

    def loops(self, ctx, fr, where, tree_line, split_line, leaf_line, one, m):
        """the lines of the trees"""
        def tree(k):
            for l in tree_line(k):
                one(l)
            top, below = self.tags(ctx, lambda: one(split_line(k, z3.IntVal(0))))

            def body(p):
                p = num(p)
                self.current = [p]
                one(leaf_line(k, p) if ctx.branch(self.LEAF(k, p)) else split_line(k, p))
            inv = lambda p, bufs: [f for _, f in self.contents(m, k, num(p), True)] if m is not None else []

            def lists(p):
                if same(p, 0) or top is None:
                    return []
                return [Seg(self.SP(k, num(p)), lambda j, p=p: [self.pending(k, num(p), num(j), top, below)])]
            nn, R_ = self.NN(k), self.fo.ROOT
            ctx.spec_loop(nn, body, fr, inv, lambda p: [num(p), R_(k) + num(p), self.node(k, num(p))], lists, where=where, name='nodes of a tree of the file',
                          facts=lambda p: self.node_facts(k, num(p)))
        inv = lambda k, bufs: [f for _, f in self.contents(m, num(k), None, True)] if m is not None else []
        ctx.spec_loop(self.fo.T, lambda k: tree(num(k)), fr, inv, lambda k: [self.fo.ROOT(num(k)), num(k), self.NN(num(k)), num(k) - 1, self.fo.ROOT(num(k) + 1)], lambda k: [],
                      where=where, name='trees of the file', facts=self.tree_facts)

    def tags(self, ctx, thunk):
        """how the code marks the two pending children of a split: what it appends to an empty list when it meets one"""
        rec, ctx.record = ctx.record, False
        try:
            before = {id(o): st for o, st in ctx.snapshot()}
            found = []
            for path in ctx.explore(thunk):
                for o, st in path.post if path.kind == 'normal' else []:
                    if isinstance(o, PyList) and before.get(id(o)) == [] and len(st) > 0:
                        found.append(st)
        finally:
            ctx.record = rec
        for st in found:
            if len(st) != 2 or not all(isinstance(x, tuple) and len(x) == 2 for x in st) or not all(isinstance(x[1], (str, int, bool)) for x in st):
                raise Unsupported('form of the pending children')
        if not found:
            return None, None
        if any((x[0][1], x[1][1]) != (found[0][0][1], found[0][1][1]) for x in found):
            raise Unsupported('form of the pending children')
        return found[0][1][1], found[0][0][1]

    def pending(self, t, p, j, top, below):
        q = z3.simplify(p - 1)
        if any(same(q, y) for y in self.current):      # by the definition of the pending children after a node
            n1 = z3.If(self.SP(t, q) > 0, self.SP(t, q) - 1, 0)
            left, on = z3.If(j < n1, self.OL(t, q, j), j == n1 + 1), z3.If(j < n1, self.ON(t, q, j), q)
        else:
            left, on = self.OL(t, p, j), self.ON(t, p, j)
        return (self.node(t, on), Flag(left, (top, below)) if isinstance(top, str) else ite(left, top, below))

    def facts(self, k):
        return self.tree_facts(k)


XG = PX + 'XGBoost.ProxyXGBoost'


def xgboost(v, m=None, stats=False):
    s = Preorder(v, False)
    blank, eol = Tok('blank', None, ('', '\t', '\t\t\t')), Tok('blank', None, ('\n', '\n', ''))
    junk = opaque('OTHER_NODE', I, I, I)
    s.threshold = lambda t, p: PREV32(F32(s.TH(t, p)))

    def split_line(t, p):
        st = [',gain=', Tok('float', rfun('GAIN')(t, p)), ',cover=', Tok('float', rfun('COVER')(t, p))] if stats else []
        return Line(blank, Tok('int', junk(t, p)), ':[f', Tok('int', s.F(t, p)), '<', Tok('float', s.TH(t, p)), '] yes=', Tok('int', junk(t, p + 1)), ',no=', Tok('int', junk(t, s.END(t, p + 1))),
                    ',missing=', Tok('int', junk(t, p + 1)), *st, eol)

    def leaf_line(t, p):
        st = [',cover=', Tok('float', rfun('COVER')(t, p))] if stats else []
        return Line(blank, Tok('int', junk(t, p)), ':leaf=', Tok('float', s.LV(t, p)), *st, eol)

    def trees(ctx, one, fr, where):
        s.loops(ctx, fr, where, lambda t: [Line('booster[', Tok('int', t), ']:\n')], split_line, leaf_line, one, m)
    text_file(v, [], trees, [])
    return s


def preorder_post(v, cls, m, s, strict, attrs=()):
    f = v.func(cls + '.load')
    fo = s.fo
    v.ctx.assume(*s.facts(fo.T - 1))
    paths = v.run(lambda: v.ctx.call(f, [PATH, m], {}))
    for p in paths:
        if not no_raise(v, p):
            continue
        sizes(v, p, fo, m)
        cs = v.in_state(p, lambda: s.contents(m, fo.T, None, True))
        for what, g in cs:
            v.check('every tree: ' + what, g, p.hyps)
        for nm, x in attrs:
            v.check(nm, v.in_state(p, lambda: same32(num(m.attrs[nm]), x) if nm in m.attrs else z3.BoolVal(False)), p.hyps)
        # a step of the traversal at split a (the statements above hold for every node p0)
        t0, a = fo.t0, z3.Int('a0')
        inst = [z3.substitute(g, (s.p0, y)) for _, g in cs for y in (a, a + 1, s.END(t0, a + 1))]
        X = z3.Function('feature_value', I, R)
        x = s.node(t0, a)

        def step():
            l, r, val, feat = at(m, 'left_child', x), at(m, 'right_child', x), at(m, 'nodes_value', x), at(m, 'nodes_feature', x)
            th = F32(s.TH(t0, a))
            goes = X(s.F(t0, a)) < th if strict else X(s.F(t0, a)) <= th
            pr = PREV32(th)
            ax = [(X(s.F(t0, a)) <= pr) == (X(s.F(t0, a)) < th), F32(pr) == pr]
            return [('a step of the traversal goes to the child the file prescribes', z3.If(X(feat) <= F32(val), l, r) == z3.If(goes, s.node(t0, s.children(t0, a)[0]), s.node(t0, s.children(t0, a)[1])), ax),
                    ('class invariant: the children of a split are nodes of its tree and splits are not leaves',
                     z3.And(*[z3.And(q >= fo.ROOT(t0), q < fo.ROOT(t0) + s.NN(t0)) for q in (l, r)]), [])]
        for what, g, ax in v.in_state(p, step):
            v.check(what, z3.Implies(z3.And(t0 >= 0, t0 < fo.T, a >= 0, a < s.NN(t0), z3.Not(s.LEAF(t0, a))), g), p.hyps, plain=inst + s.wf(t0, a) + ax + s.fo.facts(t0) + s.numbers(t0, [a, a + 1, s.END(t0, a + 1)]))


def xgboost_units(stats):
    tag = ' (with statistics)' if stats else ''

    @unit('C31', 'proxy_XGBoost.ProxyXGBoost._count_nodes' + tag)
    def count(v):
        s = xgboost(v, stats=stats)
        run_count(v, XG, s.fo)

    @unit('C31', 'proxy_XGBoost.ProxyXGBoost.load' + tag, weight=2)
    def load(v):
        m = new_model(v)
        s = xgboost(v, m, stats)
        count_contract(v, XG, s.fo)
        preorder_post(v, XG, m, s, True)


xgboost_units(False)
xgboost_units(True)


# --------------------------------------------------------------------------------------------------------------- scikit-learn

SK = PX + 'ScikitLearn.ProxyScikitLearn'


def sklearn_file(v, m=None):
    s = Preorder(v, True)
    indent = Tok('blank', None, ('\t', '\t\t', '\t\t\t\t'))
    s.base, s.lr = z3.Real('BASE'), z3.Real('RATE')
    names = word('f0', 'f3 f12', 'f1 f2 f30', '')

    def split_line(t, p):
        return Line(indent, Tok('int', s.ID(t, p)), ':[f', Tok('int', s.F(t, p)), '<=', Tok('float', s.TH(t, p)), ']\n')

    def leaf_line(t, p):
        return Line(indent, Tok('int', s.ID(t, p)), ':leaf=', Tok('float', s.LV(t, p)), '\n')

    def trees(ctx, one, fr, where):
        s.loops(ctx, fr, where, lambda t: [Line('booster[', Tok('int', t), '] [', names, ']:\n')], split_line, leaf_line, one, m)
    text_file(v, [Line('base_score=', Tok('float', s.base), '\n'), Line('learning_rate=', Tok('float', s.lr), '\n')], trees, [])
    return s


@unit('C32', 'proxy_ScikitLearn.ProxyScikitLearn._count_nodes')
def sklearn_count(v):
    s = sklearn_file(v)
    run_count(v, SK, s.fo)


@unit('C32', 'proxy_ScikitLearn.ProxyScikitLearn.load', weight=2)
def sklearn_load(v):
    m = new_model(v)
    s = sklearn_file(v, m)
    count_contract(v, SK, s.fo)
    preorder_post(v, SK, m, s, False, (('base_score', s.base), ('learning_rate', s.lr)))


# ------------------------------------------------------------------------------------------------------------------ QuickRank

QR = PX + 'QuickRank.ProxyQuickRank'


class Nested(Preorder):
    """trees given by nested elements in preorder: DEPTH(t, p) elements are open when that of node p starts, ANC(t, p, j) is the node
    of the one number j; the element of p is a child of the innermost one.  The two children of a split can come in either order"""

    def __init__(self, v):
        self.D, self.ANC = opaque('DEPTH', I, I, I), opaque('ANCESTOR', I, I, I, I)
        self.W = rfun('W', 1)
        Preorder.__init__(self, v, False)

    def lemma(self):
        pass

    def weight(self, t):
        return self.W(t)

    def wf(self, t, p):
        E, NN, D = self.END, self.NN(t), self.D
        inn = z3.And(p >= 0, p < NN)
        r, par, leaf = E(t, p + 1), self.PAR(t, p), self.LEAF(t, p)
        return [E(t, 0) == NN, NN >= 1, z3.Implies(inn, z3.And(E(t, p) > p, E(t, p) <= NN)), z3.Implies(z3.And(inn, leaf), E(t, p) == p + 1),
                z3.Implies(z3.And(inn, z3.Not(leaf)), z3.And(p + 1 < NN, r > p + 1, r < NN, E(t, p) == E(t, r), self.PAR(t, p + 1) == p, self.PAR(t, r) == p,
                                                             self.ISL(t, p + 1) != self.ISL(t, r), E(t, r) > r)),
                z3.Implies(z3.And(inn, p > 0), z3.And(par >= 0, par < p, z3.Not(self.LEAF(t, par)), z3.Or(p == par + 1, p == E(t, par + 1)), E(t, par + 1) > par + 1,
                                                      self.ISL(t, par + 1) != self.ISL(t, E(t, par + 1))))]

    def nesting(self, t, p):
        """definition of the open elements before nodes p and p + 1"""
        D, NN = self.D, self.NN(t)
        inn = z3.And(p >= 0, p < NN)
        return [D(t, 0) == 0, D(t, NN) == 0, D(t, p) >= 0, D(t, p + 1) >= 0, z3.Implies(inn, D(t, p + 1) <= D(t, p) + 1),
                z3.Implies(z3.And(inn, p > 0), z3.And(D(t, p) >= 1, self.ANC(t, p, D(t, p) - 1) == self.PAR(t, p))),
                z3.Implies(z3.And(inn, z3.Not(self.LEAF(t, p))), D(t, p + 1) == D(t, p) + 1)]

    def closing(self, t, p):
        """number of elements that end between nodes p and p + 1"""
        return self.D(t, p) + 1 - self.D(t, p + 1)

    def children(self, t, p):
        l, r = p + 1, self.END(t, p + 1)
        return z3.If(self.ISL(t, l), l, r), z3.If(self.ISL(t, l), r, l)

    def tree_facts(self, k):
        t0, p0 = self.fo.t0, self.p0
        return self.fo.facts(k) + self.nesting(k, z3.IntVal(0)) + self.wf(t0, p0) + self.wf(t0, self.PAR(t0, p0))

    def node_facts(self, t, p):
        return self.wf(t, p) + self.nesting(t, p) + self.wf(self.fo.t0, self.p0)

    def open_before(self, t, p, j):
        q = z3.simplify(p - 1)
        if any(same(q, y) for y in self.current):      # by definition
            return self.node(t, z3.If(j < self.D(t, q), self.ANC(t, q, j), q))
        return self.node(t, self.ANC(t, p, j))

    def loops(self, ctx, fr, where, emit, m):
        fo = self.fo
        blank = Tok('blank', None, ('', '\n\t\t', ' '))
        padded = lambda kind, x: Line(blank, Tok(kind, x), blank)
        inv = lambda k, p: [f for _, f in self.contents(m, num(k), p, True)] if m is not None else []
        cands = lambda x: [x - 1, x]

        def node(t, p):
            p = num(p)
            self.current = [p]
            att = {} if ctx.branch(p == 0) else dict(pos=Flag(self.ISL(t, p), ('left', 'right')))
            emit(('start', element('split', None, att)))
            if ctx.branch(self.LEAF(t, p)):
                inside = leaf_events('output', padded('float', self.LV(t, p)))
            else:
                inside = leaf_events('feature', padded('int', self.F(t, p) + 1)) + leaf_events('threshold', padded('float', self.TH(t, p)))
            for e in inside:
                emit(e)
            depth = lambda i: self.D(t, p) + 1 - num(i)
            ctx.spec_loop(self.closing(t, p), lambda i: emit(('end', element('split', None, {}))), fr, lambda i, bufs: [],
                          lambda i: [depth(i)], lambda i: [Seg(depth(i), lambda j: [self.open_before(t, z3.simplify(p + 1), num(j))])], where=where, name='elements that end')

        def tree(k):
            k = num(k)
            e = element('tree', None, dict(id=Tok('int', k + 1), weight=Tok('float', self.W(k))))
            emit(('start', e))
            ctx.spec_loop(self.NN(k), lambda p: node(k, p), fr, lambda p, bufs: inv(k, num(p)), lambda p: cands(num(p)) + cands(fo.ROOT(k) + num(p)),
                          lambda p: [] if same(p, 0) else [Seg(self.D(k, num(p)), lambda j, p=p: [self.open_before(k, num(p), num(j))])],
                          where=where, name='nodes of a tree of the file', facts=lambda p: self.node_facts(k, num(p)))
            emit(('end', e))
        ctx.spec_loop(fo.T, tree, fr, lambda k, bufs: inv(k, None), lambda k: cands(fo.ROOT(num(k))) + cands(num(k)), lambda k: [], where=where, name='trees of the file',
                      facts=lambda k: self.tree_facts(num(k)))


def quickrank(v, m=None):
    s = Nested(v)

    def header():
        root, info, ens = element('ranker', None, {}), element('info', None, {}), element('ensemble', None, {})
        out = [('start', root), ('start', info)]
        for tag in ('type', 'trees', 'leaves', 'shrinkage', 'leafsupport', 'discretization', 'estop'):
            out += leaf_events(tag, word('LAMBDAMART', 'MART') if tag == 'type' else Tok('float', rfun('INFO_' + tag)(0, 0)))
        return out + [('end', info), ('start', ens)]
    xml_file(v, header, lambda ctx, emit, fr, where: s.loops(ctx, fr, where, emit, m), lambda head: [('end', head[-1][1]), ('end', head[0][1])])
    return s


@unit('C29', 'proxy_QuickRank.ProxyQuickRank._count_nodes')
def quickrank_count(v):
    s = quickrank(v)
    run_count(v, QR, s.fo)


@unit('C29', 'proxy_QuickRank.ProxyQuickRank.load', weight=2)
def quickrank_load(v):
    m = new_model(v)
    s = quickrank(v, m)
    count_contract(v, QR, s.fo)
    preorder_post(v, QR, m, s, False)


# --------------------------------------------------------------------------------------------------- constructor of the ensemble

FORMATS = {'QuickRank': ('QuickRank.ProxyQuickRank', 'C29'), 'LightGBM': ('LightGBM.ProxyLightGBM', 'C30'), 'XGBoost': ('XGBoost.ProxyXGBoost', 'C31'),
           'ScikitLearn': ('ScikitLearn.ProxyScikitLearn', 'C32'), 'Jforests': ('Jforests.ProxyJforests', 'C33'), 'CatBoost': ('CatBoost.ProxyCatBoost', 'C34')}


def constructor_unit(fmt, cls, prop):
    @unit([prop, 'C04'], 'rt_ensemble.RTEnsemble.__init__ (%s)' % fmt)
    def construct(v):
        """the loader of the format is run once on this model and the given file; base score and learning rate are those given (0.5 for XGBoost when
        none is given) unless the file has some; at most n_trees trees are kept"""
        T = v.int('T', 1)
        in_file = (z3.Real('FILE_BASE'), z3.Real('FILE_RATE')) if fmt == 'ScikitLearn' else None
        for case in range(8):
            calls, pruned = PyList(v.ctx, []), PyList(v.ctx, [])

            def loader(q):
                def h(ctx, a, k):
                    calls.raw = calls.raw + [(q, a)]
                    m = a[-1]
                    if isinstance(m, Obj):
                        ctx.setattr(m, 'n_trees', T)
                        for nm in ARRAYS:
                            ctx.setattr(m, 'trees_' + nm, Abstract('array filled by the loader', {}, {}))
                        if in_file:
                            ctx.setattr(m, 'base_score', in_file[0])
                            ctx.setattr(m, 'learning_rate', in_file[1])
                return h
            for q, (c, _) in FORMATS.items():
                v.ctx.overrides[PX + c + '.load'] = loader(q)

            def prune(ctx, a, k):
                pruned.raw = pruned.raw + [a]
            v.ctx.overrides[RT + '._prune_model'] = prune
            base = v.real('base%d' % case) if case & 1 else None
            keep = v.int('keep%d' % case, 1) if case & 2 else None
            rate = v.real('rate%d' % case) if case & 4 else None
            kw = dict(format=fmt)
            for nm, x in (('base_score', base), ('n_trees', keep), ('learning_rate', rate)):
                if x is not None:
                    kw[nm] = x
            for p in v.run(lambda: v.ctx.call(v.func(RT), [PATH], kw)):
                if not no_raise(v, p):
                    continue
                o = p.val
                cs, ps = v.in_state(p, lambda: list(calls.raw)), v.in_state(p, lambda: list(pruned.raw))
                ok = len(cs) == 1 and cs[0][0] == fmt and len(cs[0][1]) == 2 and cs[0][1][1] is o and isinstance(cs[0][1][0], SymStr) and cs[0][1][0].same(PATH)
                v.check('the loader of the format fills this model from the file', z3.BoolVal(ok), p.hyps)
                b, r, c = v.in_state(p, lambda: (o.attrs.get('base_score'), o.attrs.get('learning_rate'), o.attrs.get('_cache_scorer')))
                want_b = in_file[0] if in_file else base if base is not None else z3.RealVal('0.5') if fmt == 'XGBoost' else None
                want_r = in_file[1] if in_file else rate if rate is not None else z3.RealVal(1)
                v.check('base score', z3.BoolVal(b is None) if want_b is None else z3.BoolVal(False) if b is None else real(num(b)) == want_b, p.hyps)
                v.check('learning rate', z3.BoolVal(False) if r is None else real(num(r)) == want_r, p.hyps)
                v.check('no scores are remembered', z3.BoolVal(v.in_state(p, lambda: isinstance(c, PyDict) and not c.items)), p.hyps)
                less = z3.BoolVal(False) if keep is None else keep < T
                same_obj = [x for x in ps if x and (x[0] is o or len(x) == 1)]
                if not v.in_state(p, lambda: same(num(o.attrs['n_trees']), T)):
                    raise Unsupported('number of trees changed otherwise than by _prune_model')
                v.check('pruned exactly when fewer trees are asked for', less == z3.BoolVal(len(ps) == 1), p.hyps)
                if len(ps) == 1:
                    v.check('pruned to the number of trees asked for', z3.BoolVal(False) if keep is None or len(same_obj) != 1 else num(ps[0][-1]) == keep, p.hyps)


for _f, (_c, _p) in FORMATS.items():
    constructor_unit(_f, _c, _p)


# -------------------------------------------------------------------------------------------------------------------- CatBoost

CB = PX + 'CatBoost.ProxyCatBoost'
BEHAVIOURS = ('BranchOnValueLessThanEqual', 'BranchOnValueLessThan', 'BranchOnValueGreaterThanEqual', 'BranchOnValueGreaterThan', 'BranchOnValueEqual',
              'BranchOnValueNotEqual', 'LeafNode')     # TreeNodeBehavior of Core ML


class Flat:
    """nodes listed tree by tree, in the order of their numbers: node i is number ID(i) of tree TREE(i); in the model, node j of tree t
    is the one number NN(t) - 1 - j of the tree (the root is the last node of the file)"""

    def __init__(self, v):
        self.v, self.c = v, v.ctx
        self.NN = fun('NN')
        self.fo = Forest(v, lambda t: self.NN(t))
        self.K = self.fo.ROOT(self.fo.T)
        self.TREE, self.ID, self.BEH, self.F, self.YES, self.NO = [fun(x) for x in ('TREE', 'ID', 'BEHAVIOUR', 'FEATURE', 'TRUE_CHILD', 'FALSE_CHILD')]
        self.TH, self.LV = rfun('BRANCH_VALUE', 1), rfun('LEAF_VALUE', 1)
        self.f0 = z3.Int('f0')
        i = z3.Int('lemma_i')
        fo, T = self.fo, self.TREE
        hyp = [i >= 0, i < self.K] + self.place(i) + self.step(i) + fo.facts(T(i)) + fo.facts(T(i) + 1) + [fo.T >= 1]
        for a, g in enumerate(self.place(i + 1)):
            v.check('lemma (induction over the nodes): place of a node %d' % a, g, [], plain=hyp)
        for a, g in enumerate(self.place(z3.IntVal(0))):
            v.check('lemma (induction over the nodes, first node): place of a node %d' % a, g, [], plain=self.step(i) + fo.facts(z3.IntVal(0)) + fo.facts(fo.T) + [fo.ROOT(0) == 0, fo.T >= 1])
        a, b = z3.Ints('tree_c tree_d')
        v.check('lemma: trees do not overlap', z3.Implies(z3.And(a >= 0, a < b), fo.ROOT(a) + self.NN(a) <= fo.ROOT(b)), [],
                plain=[fo.ROOT(a + 1) == fo.ROOT(a) + self.NN(a), z3.Implies(z3.And(a + 1 >= 0, a + 1 <= b - 1 + 1), fo.ROOT(a + 1) <= fo.ROOT(b))])
        # the number of nodes before a tree is the sum of the sizes of the trees before
        v.check('lemma (induction): nodes before a tree', fo.ROOT(a + 1) == self.total(a + 1), [], plain=[a >= 0, fo.ROOT(a) == self.total(a), fo.ROOT(a + 1) == fo.ROOT(a) + self.NN(a),
                                                                                                   self.total(a + 1) == self.total(a) + self.NN(a)])

    def total(self, t):
        return SUMI(lam(lambda j: self.NN(j)), num(t))

    def step(self, i):
        T, D = self.TREE, self.ID
        more = D(i) + 1 < self.NN(T(i))
        return [T(0) == 0, D(0) == 0, T(i + 1) == z3.If(more, T(i), T(i) + 1), D(i + 1) == z3.If(more, D(i) + 1, 0)]

    def place(self, i):
        T, D, fo = self.TREE, self.ID, self.fo
        return [fo.ROOT(T(i)) + D(i) == i, T(i) >= 0, D(i) >= 0, z3.Implies(i < self.K, z3.And(T(i) < fo.T, D(i) < self.NN(T(i)))), z3.Implies(i == self.K, z3.And(T(i) == fo.T, D(i) == 0))]

    def apart(self, a, b):
        """trees a and b do not overlap"""
        R_, NN = self.fo.ROOT, self.NN
        return [z3.Implies(z3.And(a >= 0, a < b), R_(a) + NN(a) <= R_(b)), z3.Implies(z3.And(b >= 0, b < a), R_(b) + NN(b) <= R_(a))]

    def facts(self, i):
        i = num(i)
        T, D, fo, f0, t0 = self.TREE, self.ID, self.fo, self.f0, self.fo.t0
        out = []
        for q in (i, f0):
            out += self.place(q) + [self.NN(T(q)) >= 1, fo.ROOT(T(q)) >= 0] + fo.facts(T(q))
        out += self.place(i + 1) + self.step(i) + self.apart(T(f0), T(i)) + self.apart(t0, T(i)) + fo.facts(t0)
        out += [fo.ROOT(x) == self.total(x) for x in (T(i) + 1, fo.T)]
        return out

    def node(self, t, j):
        return self.fo.ROOT(t) + self.NN(t) - 1 - j

    def supported(self, i):
        return z3.Or(self.BEH(i) == 6, self.BEH(i) == 3, self.BEH(i) == 0)

    def contents(self, m, k):
        """what the arrays hold for node f0 and tree t0 when k nodes of the file have been read"""
        f0, t0, fo = self.f0, self.fo.t0, self.fo
        t = self.TREE(f0)
        x = self.node(t, self.ID(f0))
        done = z3.And(f0 >= 0, f0 < k, f0 < self.K)
        tree = z3.And(t0 >= 0, t0 < fo.T, fo.ROOT(t0) + self.NN(t0) <= k)
        leaf, gt = self.BEH(f0) == 6, self.BEH(f0) == 3
        l, r = z3.If(gt, self.NO(f0), self.YES(f0)), z3.If(gt, self.YES(f0), self.NO(f0))
        spl = z3.And(done, z3.Not(leaf))
        inn = z3.And(f0 >= 0, f0 < self.K)
        return [('root', z3.Implies(tree, at(m, 'root', t0) == fo.ROOT(t0))), ('weight', z3.Implies(tree, same32(at(m, 'weight', t0), 1))),
                ('only supported models are loaded', z3.Implies(done, self.supported(f0))),
                ('value of a leaf', z3.Implies(z3.And(done, leaf), same32(at(m, 'nodes_value', x), self.LV(f0)))),
                ('feature of a split', z3.Implies(spl, at(m, 'nodes_feature', x) == self.F(f0))), ('threshold of a split', z3.Implies(spl, same32(at(m, 'nodes_value', x), self.TH(f0)))),
                ('left child', z3.Implies(spl, at(m, 'left_child', x) == self.node(t, l))), ('right child', z3.Implies(spl, at(m, 'right_child', x) == self.node(t, r))),
                ('leaves have no children', z3.Implies(z3.And(inn, leaf), z3.And(at(m, 'left_child', x) == -1, at(m, 'right_child', x) == -1))),
                ('leaves have no feature', z3.Implies(z3.And(inn, leaf), at(m, 'nodes_feature', x) == -1))]


def catboost(v, m=None):
    s = Flat(v)
    c, fo = v.ctx, s.fo
    j = z3.Int('any_node')
    c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.K), z3.And(s.TREE(j) >= 0, s.TREE(j) < fo.T)), patterns=[s.TREE(j)]))      # lemma above
    c.assume(*(s.facts(s.K - 1) + [s.K >= 1] + [fo.ROOT(fo.T) == s.total(fo.T)]))

    def message(i):
        i = num(i)
        info = Abstract('EvaluationInfo', dict(evaluationIndex=z3.IntVal(0), evaluationValue=s.LV(i)), {})
        return Abstract('TreeNode', dict(treeId=s.TREE(i), nodeId=s.ID(i), nodeBehavior=s.BEH(i), branchFeatureIndex=s.F(i), branchFeatureValue=s.TH(i), trueChildNodeId=s.YES(i),
                                         falseChildNodeId=s.NO(i), evaluationInfo=lambda ctx: PyList(ctx, [info])), {})

    def cells(ctx, fr):
        return [x for x in fr.vars.values() if isinstance(x, Arr) and x.ndim == 1 and (m is None or all(x is not y for y in m.attrs.values()))]

    def loop(ctx, o, one, fr, where):
        # a table of the nodes seen so far in each tree: last number, or count
        rec, ctx.record = ctx.record, False
        off = None
        try:
            def first():
                ctx.assume(s.ID(0) == 0, s.TREE(0) == 0, s.NN(0) >= 1)
                before = [(a, a.get(z3.IntVal(0))) for a in cells(ctx, fr)]
                one(message(z3.IntVal(0)))
                for a, x in before:
                    y = num(a.get(z3.IntVal(0)))
                    if not ctx.entails(y == num(x)):
                        return 0 if ctx.entails(y == 1) else -1 if ctx.entails(y == 0) else None
                return None
            offs = {p.val for p in ctx.explore(first) if p.kind == 'normal'}
            off = offs.pop() if len(offs) == 1 else None
        finally:
            ctx.record = rec
        mine = {id(a.buf) for a in m.attrs.values() if isinstance(a, Arr)} if m is not None else set()
        tables = {id(a.buf) for a in cells(ctx, fr)}

        def inv(k, bufs):
            k, out, loads = num(k), [], False
            for b, before in bufs:
                if id(b) in mine:
                    loads = True
                    continue
                if id(b) not in tables:
                    continue
                if off is None:
                    raise Unsupported('table of the trees that is not a table of sizes')
                q = fresh('q')
                now = num(b.read(q))
                seen = z3.If(q < s.TREE(k), s.NN(q), s.ID(k)) + off
                was = num(before(q))
                body = z3.Implies(z3.And(q >= 0, q < fo.T), now == z3.If(z3.Or(q > s.TREE(k), z3.And(q == s.TREE(k), s.ID(k) == 0)), was, seen))
                out.append(z3.ForAll([q], body, patterns=[now]) if z3.is_app(now) and now.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.ForAll([q], body))
            return out + ([f for _, f in s.contents(m, k)] if loads else [])
        ctx.spec_loop(s.K, lambda i: one(message(i)), fr, inv, lambda k: [s.TREE(num(k)), s.ID(num(k))], lambda k: [], where=where, name='nodes of the file', facts=s.facts)
    nodes = Abstract('nodes', {}, {'for': loop, 'seq': lambda ctx, o: (s.K, message), 'len': lambda ctx, o: s.K})
    spec = Abstract('Model', dict(treeEnsembleRegressor=Abstract('TreeEnsembleRegressor', dict(treeEnsemble=Abstract('TreeEnsembleParameters', dict(nodes=nodes), {})), {})), {})
    s.mlmodel = Abstract('MLModel', {}, dict(get_spec=lambda ctx, o: spec))

    def mlmodel(ctx, a, k):
        if not (a and isinstance(a[0], SymStr) and a[0].same(PATH)):
            ctx.oblige('the file that is read is the one given', z3.BoolVal(False))
        return s.mlmodel

    def value(ctx, a, k):
        if a[0] not in BEHAVIOURS:
            raise PyExc('ValueError')
        return BEHAVIOURS.index(a[0])

    def cumsum(ctx, a, k):
        x = a[0]
        q = fresh('q')
        if len(a) == 1 and not k and isinstance(x, Arr) and x.ndim == 1 and same(x.shape[0], fo.T) and ctx.entails(z3.Implies(z3.And(q >= 0, q < fo.T), num(x.get(q)) == s.NN(q))):
            return N.mk(ctx, (fo.T,), lambda i: fo.ROOT(num(i) + 1), x.dtype)      # by the lemma on the nodes before a tree
        return N.n_cumsum(ctx, a, k)
    c.overrides['numpy.cumsum'] = cumsum
    c.overrides['coremltools.models.model.MLModel'] = c.overrides['coremltools.models.MLModel'] = mlmodel
    c.overrides['coremltools.proto.TreeEnsemble_pb2.TreeEnsembleParameters.TreeNode.TreeNodeBehavior.Value'] = value
    return s


@unit('C34', 'proxy_CatBoost.ProxyCatBoost._count_nodes')
def catboost_count(v):
    s = catboost(v)
    run_count(v, CB, s.fo, s.mlmodel)


@unit('C34', 'proxy_CatBoost.ProxyCatBoost.load', weight=2)
def catboost_load(v):
    m = new_model(v)
    s = catboost(v, m)
    fo = s.fo

    def count(ctx, a, k):
        if not (a and a[0] is s.mlmodel):
            ctx.oblige('the nodes counted are those of the model read', z3.BoolVal(False))
        return (fo.T, s.K)
    v.ctx.overrides[CB + '._count_nodes'] = count
    i = z3.Int('any_i')
    ok = [z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.K), s.supported(i)), patterns=[s.BEH(i)])]
    for p in v.run(lambda: v.ctx.call(v.func(CB + '.load'), [PATH, m], {})):
        if p.kind == 'raise' and p.val.cls == 'AssertionError':
            v.check('no supported model is refused', z3.BoolVal(False), p.hyps + ok)
            continue
        if not no_raise(v, p):
            continue
        sizes(v, p, fo, m)
        for what, g in v.in_state(p, lambda: s.contents(m, s.K)):
            if what in ('root', 'weight'):
                g = z3.Implies(z3.And(fo.t0 >= 0, fo.t0 < fo.T), g)
            v.check('every tree: ' + what, g, p.hyps)
        # a step of the traversal at the node f0
        f0 = s.f0
        t, X = s.TREE(f0), z3.Function('feature_value', I, R)
        x, r, n = s.node(t, s.ID(f0)), fo.ROOT(t), s.NN(t)
        rng = [f0 >= 0, f0 < s.K, s.BEH(f0) != 6, s.YES(f0) >= 0, s.YES(f0) < n, s.NO(f0) >= 0, s.NO(f0) < n]

        def step():
            l, rr, val, feat = at(m, 'left_child', x), at(m, 'right_child', x), at(m, 'nodes_value', x), at(m, 'nodes_feature', x)
            th = F32(s.TH(f0))
            holds = z3.If(s.BEH(f0) == 3, X(s.F(f0)) > th, X(s.F(f0)) <= th)
            return [('a step of the traversal goes to the child the file prescribes', z3.If(X(feat) <= F32(val), l, rr) == s.node(t, z3.If(holds, s.YES(f0), s.NO(f0)))),
                    ('class invariant: the children of a split are nodes of its tree', z3.And(l >= r, l < r + n, rr >= r, rr < r + n)),
                    ('class invariant: splits are not leaves', z3.Not(z3.And(l == -1, rr == -1)))]
        for what, g in v.in_state(p, step):
            v.check(what, z3.Implies(z3.And(*rng), g), p.hyps)
