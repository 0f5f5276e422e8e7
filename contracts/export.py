"""C32, C29, C35: what is written to a file.

The text written is a sequence of pieces: literal text and values printed; recursive functions are under a contract (what they write
for a node), and their body is checked for an arbitrary node."""
from contracts.common import *
import ast, os
import vcg.npmodel as N
from contracts.proxies import F32, SK, QR, PATH, same32

OUT = SymStr(('atom', 'out_path'))


class Out:
    """a file opened for writing: what has been written, and the calls of functions under contract that write"""

    def __init__(self, v, path):
        self.v, self.events = v, PyList(v.ctx, [])
        self.path = path

        def write(ctx, o, t):
            if not isinstance(t, (str, SymStr)):
                raise Unsupported('text written')
            self.emit(SymStr(t))

        def writelines(ctx, o, l):
            n, el = ctx.seq(l)
            n = conc(n)
            if not isinstance(n, int):
                raise Unsupported('writelines of a symbolic number of lines')
            for i in range(n):
                write(ctx, o, el(i))
        self.file = Abstract('file', {'__closed__': True}, dict(write=write, writelines=writelines, close=lambda ctx, o: None, flush=lambda ctx, o: None,
                                                                __enter__=lambda ctx, o: o))

        def open_(ctx, a, k):
            if not (isinstance(a[0], SymStr) and a[0].same(path)):
                ctx.oblige('the file that is written is the one given', z3.BoolVal(False))
            mode = a[1] if len(a) > 1 else k.get('mode', 'r')
            if mode not in ('w', 'wt'):
                raise Unsupported('mode of the file')
            self.start()
            return self.file
        v.ctx.overrides['open'] = open_

    def start(self):
        self.events.raw = []

    def emit(self, e):
        self.events.raw = self.events.raw + [e]


def conc(n):
    return n if isinstance(n, int) else z3.simplify(num(n)).as_long() if z3.is_int_value(z3.simplify(num(n))) else n


def pieces(ctx, t):
    """SymStr -> Line"""
    out = []
    for p in t.parts:
        if isinstance(p, str):
            out.append(p)
        elif p[0] == 'str' and p[1].sort() == R:
            out.append(Tok('float', p[1]))
        elif p[0] == 'str':
            out.append(Tok('int' if ctx.entails(p[1] >= 0) else 'signed', p[1]))
        elif p[0][:3] == 'fmt' and is_z3(p[1]):
            out.append(Tok('float' if p[1].sort() == R or p[0][-1] not in 'd' else 'int', opaque('PRINTED_' + p[0], p[1].sort(), R)(p[1])))
        elif p[0] == 'name':
            out.append(Tok('word', p[1], ['alpha', 'n7', 'x_1', 'B']))
        elif p[0] == 'color':
            out.append(Tok('word', None, ['#a0b1c2', '#ffffffff', '#00ff1180']))
        elif p[0] == 'rep' and p[1] in (' ', '\t'):
            if out:
                raise Unsupported('blanks written inside a line')
        elif p[0] == 'join':
            el = pieces(ctx, p[2])
            out.append(Tok('word', None, ['' if s == 0 else p[1].join(el.inst(s + j)[0] for j in range(s)) for s in range(4)]))
        else:
            raise Unsupported('text written')
    return Line(*out)


def lines(ctx, events):
    """events -> list of lines (Line) and other events, each of which is at the start of a line"""
    out, cur = [], []

    def flush(end):
        if cur and not end:
            out.append(('part of a line', SymStr(*cur)))
        elif cur:
            out.append(('line', pieces(ctx, SymStr(*cur))))
        cur.clear()
    for e in events:
        if isinstance(e, SymStr):
            for p in e.parts:
                if not isinstance(p, str):
                    cur.append(p)
                    continue
                bits = p.split('\n')
                for b in bits[:-1]:
                    cur.append(b)
                    flush(True)
                if bits[-1]:
                    cur.append(bits[-1])
        else:
            flush(False)
            out.append(('call', e))
    flush(False)
    return out


def groups(ctx, l, pat):
    """groups of the pattern in the line as terms (None: no match)"""
    rx = N.regex(pat)
    m = rx.methods['fullmatch'](ctx, rx, N.whole(l))
    if m is None:
        return None
    return m.methods['groups'](ctx, m)


def closure(ctx, f):
    """the variables of the enclosing functions with their values, or None when they cannot be compared"""
    def val(x, depth=0):
        if x is None or isinstance(x, (bool, int, float, str)):
            return x
        if is_z3(x):
            return 'z3', x.get_id()
        if isinstance(x, (Abstract, Extern, Builtin)):
            return type(x).__name__, getattr(x, 'name', None) or getattr(x, 'path', None), str(x.key) if isinstance(x, Abstract) else ''
        if isinstance(x, (Arr, Obj, FuncVal, ClassVal)):
            return type(x).__name__, id(x) if not isinstance(x, FuncVal) else x.qual
        if isinstance(x, SymStr):
            return repr(x)
        if isinstance(x, (tuple, PyList, PyDict)) and depth < 4 and not (isinstance(x, PyList) and x.symbolic):
            return type(x).__name__, tuple(val(y, depth + 1) for y in (x.items.items() if isinstance(x, PyDict) else x.items if isinstance(x, PyList) else x))
        raise Unsupported('value')
    free = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}
    todo, out, fr, done = [f], [], f.frame, {f.qual}
    try:
        while todo:
            g = todo.pop()
            for nm in sorted({n.id for n in ast.walk(g.node) if isinstance(n, ast.Name)}):
                fr = g.frame
                while fr is not None and nm not in fr.vars:
                    fr = fr.parent
                if fr is None:
                    continue
                x = fr.vars[nm]
                if isinstance(x, FuncVal) and x.qual not in done:
                    done.add(x.qual)
                    todo.append(x)
                out.append((nm, val(x)))
    except Unsupported:
        return None
    return tuple(out)


def recursive(v, qual, parse, record, body, first=None):
    """contract of a nested recursive function: a call appends record(args) to the output; its body is run once for arbitrary arguments"""
    st = dict(inside=False, done=False, seen=set())
    base = list(v.ctx.pc)

    def general(ctx, f):
        """check the body without the decisions of the path that led to the call; the values of the variables it refers to are those of
        the path.  False: not established (they may depend on the decisions)"""
        pc, nr, no = list(ctx.pc), len(v.results), len(ctx.obls)
        ctx.pc[:] = base
        try:
            body(ctx, f)
            if all(r['status'] == 'proved' for r in v.results[nr:]):
                return True
        except Unsupported:
            pass
        finally:
            ctx.pc[:] = pc
        del v.results[nr:], ctx.obls[no:]
        return False

    def contract(ctx, args, kw, f):
        names = [a.arg for a in f.node.args.args]
        b = dict(zip(names, args))
        b.update(kw)
        if not st['inside']:        # a call from outside of the function: in the state in which it is called, for arbitrary arguments
            st['inside'] = st['done'] = True
            rec, ctx.record = ctx.record, True
            if first:
                first(ctx, f, b)
            try:
                sig = closure(ctx, f)
                if sig is None or sig not in st['seen']:
                    if sig is None or not general(ctx, f):
                        body(ctx, f)
                    elif sig is not None:
                        st['seen'].add(sig)
            finally:
                st['inside'], ctx.record = False, rec
        return record(ctx, parse(ctx, f, b))
    v.ctx.overrides[qual] = contract
    return st


# ------------------------------------------------------------------------------------------------------ export of scikit-learn models

NUM = r'([-+0-9.e]+|[-+]?inf|nan)'


@unit('C32', 'proxy_ScikitLearn.ProxyScikitLearn._export_tree')
def export_tree(v):
    c = v.ctx
    n = v.int('n_nodes', 1)
    feat, left, right = [v.array(x, n, 'int') for x in ('feature', 'children_left', 'children_right')]
    thr, val = v.array('threshold', n), v.array('value', (n, 1, 1))
    F_, L_, R_, T_, V_ = [a.frozen() for a in (feat, left, right, thr, val)]
    x = z3.Int('any_node')
    c.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), z3.Or(F_(x) == -2, z3.And(F_(x) >= 0, L_(x) > x, L_(x) < n, R_(x) > x, R_(x) < n))), patterns=[F_(x)]))
    c.overrides['sklearn.tree._tree.TREE_UNDEFINED'] = -2
    o = Out(v, OUT)
    tree = Abstract('estimator', {'tree_': Abstract('Tree', dict(feature=feat, threshold=thr, children_left=left, children_right=right, value=val, node_count=n, __closed__=True)), '__closed__': True})
    tid = v.int('tree_id', 0)

    def body(ctx, f):
        node, depth = z3.Int('node'), z3.Int('depth')
        npc = len(ctx.pc)
        ctx.assume(node >= 0, node < n, depth >= 0)
        start = len(o.events.raw)
        names = [a.arg for a in f.node.args.args]
        for q in ctx.explore(lambda: ctx.call_func(f, [node, depth][:len(names)], {})):
            hyps = ctx.axioms + list(ctx.pc) + list(q.facts)
            if q.kind not in ('normal', 'return'):
                v.check('no exception (%s)' % q.val, z3.BoolVal(False), hyps)
                continue
            ev = v_events(ctx, q, o)[start:]
            if not ev:
                raise Unsupported('nothing is written for a node')
            npc2 = len(ctx.pc)
            ctx.pc.extend(q.facts)
            ls = lines(ctx, ev)
            if not ls or ls[0][0] != 'line':
                v.check('a line is written for the node first', z3.BoolVal(False), hyps)
                del ctx.pc[npc2:]
                continue
            sp = groups(ctx, ls[0][1], r'\s*(\d+):\[f(\d+)<=' + NUM + r'\]')
            lf = groups(ctx, ls[0][1], r'\s*(\d+):leaf=' + NUM)
            subs = [e for e in ls[1:]]
            okc = all(e[0] == 'call' for e in subs)
            kids = [e[1][1] for e in subs if e[0] == 'call']
            if sp is not None:
                v.check('the line of a split is written for splits only', F_(node) != -2, hyps)
                v.check('number, feature and threshold of the split', z3.And(term(sp[0]) == node, term(sp[1]) == F_(node), same32(term(sp[2]), T_(node))), hyps)
                v.check('the left subtree then the right subtree', z3.And(z3.BoolVal(okc and len(kids) == 2), *([kids[0] == L_(node), kids[1] == R_(node)] if len(kids) == 2 else [])), hyps)
            elif lf is not None:
                v.check('the line of a leaf is written for leaves only', F_(node) == -2, hyps)
                v.check('number and value of the leaf', z3.And(term(lf[0]) == node, same32(term(lf[1]), V_(node, 0, 0))), hyps)
                v.check('nothing below a leaf', z3.BoolVal(not subs), hyps)
            else:
                v.check('the line of a node has the form of a split or of a leaf', z3.BoolVal(False), hyps)
            del ctx.pc[npc2:]
        del ctx.pc[npc:]

    def parse(ctx, f, b):
        x = num(b[f.node.args.args[0].arg])
        ctx.oblige('precondition of the recursion: a node of the tree', z3.And(x >= 0, x < n))
        return x
    st = recursive(v, SK + '._export_tree.recurse', parse, lambda ctx, x: o.emit(('node', x)), body)
    for p in v.run(lambda: v.ctx.call(v.func(SK + '._export_tree'), [o.file, tree, tid], {})):
        if not no_raise(v, p):
            continue
        if not st['done']:
            raise Unsupported('the tree is not written by the function recurse')
        ev = v.in_state(p, lambda: list(o.events.raw))
        npc = len(c.pc)
        ls = lines(c, ev)
        g = groups(c, ls[0][1], r'booster\[(\d+)\] \[[^\n]*\]:') if ls and ls[0][0] == 'line' else None
        v.check('the tree starts with its header', z3.BoolVal(False) if g is None else term(g[0]) == tid, p.hyps)
        v.check('then its nodes from the root', z3.And(z3.BoolVal(len(ls) == 2 and ls[1][0] == 'call'), *([ls[1][1][1] == 0] if len(ls) == 2 and ls[1][0] == 'call' else [])), p.hyps)


def term(x):
    if isinstance(x, str):
        try:
            return z3.IntVal(int(x))
        except ValueError:
            return num(float(x))
    if isinstance(x, Tok) and x.term is not None:
        return x.term
    raise Unsupported('number written')


def v_events(ctx, q, o):
    for x, st in q.post:
        if x is o.events:
            return list(st)
    return list(o.events.raw)


def export_model_unit(init):
    @unit('C32', 'proxy_ScikitLearn.ProxyScikitLearn.export_scikit_model (%s)' % init)
    def export_model(v):
        c = v.ctx
        base, lr, T = v.real('base'), v.real('lr'), v.int('T', 1)
        o = Out(v, OUT)
        const = Abstract('array', {'__closed__': True}, dict(flatten=lambda ctx, s: PyList(ctx, [base]), ravel=lambda ctx, s: PyList(ctx, [base]), item=lambda ctx, s: base))
        ini = Abstract('init', {'__closed__': True, **({'constant_': const} if init == 'constant_' else {init: base})})
        est = lambda k: Abstract('estimator', {}, key=num(k))
        ests = Abstract('array', {}, dict(flatten=lambda ctx, s: Seq(T, est), ravel=lambda ctx, s: Seq(T, est)))
        model = Abstract('GradientBoostingRegressor', {'__closed__': True, 'estimators_': ests, 'init_': ini, 'learning_rate': lr})

        def tree(ctx, a, k):
            b = dict(zip(('writer', 'tree', 'tree_id'), a))
            b.update(k)
            if b['writer'] is not o.file:
                ctx.oblige('trees are written in the file', z3.BoolVal(False))
            o.emit(('tree', b['tree'].key if isinstance(b['tree'], Abstract) else z3.IntVal(-1), num(b.get('tree_id', 0))))
        c.overrides[SK + '._export_tree'] = tree
        for p in v.run(lambda: v.ctx.call(v.func(SK + '.export_scikit_model'), [model, OUT], {})):
            if not no_raise(v, p):
                continue
            raw = v.in_state(p, lambda: list(o.events.raw))
            segs = [e for e in raw if isinstance(e, Seg)]
            ls = lines(c, [e for e in raw if not isinstance(e, Seg)])
            if len(segs) != 1 or segs[0] is not raw[-1]:
                v.check('every tree is written, after the header', z3.BoolVal(False), p.hyps)
                continue
            k = fresh('k')
            one = segs[0].of(k)
            v.check('every tree is written once, in order', z3.And(num(segs[0].n) == T, z3.BoolVal(len(one) == 1 and one[0][0] == 'tree'), one[0][1] == k, one[0][2] == k), p.hyps + [k >= 0, k < T])
            got = {}
            for kind, l in ls:
                for key in ('base_score', 'learning_rate'):
                    g = groups(c, l, key + '=' + NUM) if kind == 'line' else None
                    if g is not None:
                        got.setdefault(key, []).append(term(g[0]))
            v.check('the header has one line for the base score and one for the learning rate', z3.BoolVal(len(ls) == 2 and sorted(got) == ['base_score', 'learning_rate']), p.hyps)
            for key, want in (('base_score', base), ('learning_rate', lr)):
                v.check(key, same32(got[key][0], want) if key in got else z3.BoolVal(False), p.hyps)


for _i in ('constant_', 'quantile', 'mean'):
    export_model_unit(_i)


# ------------------------------------------------------------------------------------------------------------ QuickRank models saved

ET = 'xml.etree.cElementTree.'
RESERVED = ('tree', 'split', 'feature', 'threshold', 'output')


def etree(v):
    c = v.ctx
    sh = c.shim('etree_contract', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shims', 'xml_etree.py'))
    el = sh.get('Element')

    def tostring(ctx, a, k):
        enc = a[1] if len(a) > 1 else k.get('encoding')
        if set(k) - {'encoding'} or enc not in (None, 'unicode', 'utf-8', 'us-ascii', 'UTF-8'):
            raise Unsupported('etree.tostring with options')
        t = SymStr(('xml', freeze(ctx, a[0])))
        return t if enc == 'unicode' else Abstract('bytes', {'__closed__': True}, dict(decode=lambda ctx, o, *a: t))
    for m in (ET, 'xml.etree.ElementTree.'):
        c.overrides.update({m + 'Element': el, m + 'SubElement': sh.get('SubElement'), m + 'tostring': tostring})
    return el


def freeze(ctx, e):
    """the element and what it contains, at this moment"""
    if isinstance(e, Abstract):
        if e.name != 'XML':
            raise Unsupported('element')
        return e.key
    if not (isinstance(e, Obj) and e.cls.name == 'Element'):
        raise Unsupported('element')
    a = e.attrs
    kids = []
    for x in a['children'].raw:
        kids.append(Seg(x.n, lambda j, x=x: [freeze(ctx, y) for y in x.of(j)]) if isinstance(x, Seg) else freeze(ctx, x))
    return (a['tag'], dict(a['attrib'].items), a['text'], kids)


def number(ctx, t):
    """text that is the printed form of one number -> term"""
    ps = [p for p in pieces(ctx, SymStr(t)).pieces] if isinstance(t, (str, SymStr)) else []
    ps = [p for p in ps if not (isinstance(p, str) and not p.strip())]
    return term(ps[0].strip() if isinstance(ps[0], str) else ps[0]) if len(ps) == 1 else None


def blank(t):
    return t is None or isinstance(t, str) and not t.strip() or isinstance(t, SymStr) and all(
        not p.strip() if isinstance(p, str) else p[0] == 'rep' and not p[1].strip() for p in t.parts)


def number_element(v, name, e, want, hyps, tag=None):
    ok = isinstance(e, tuple) and len(e) == 4 and (tag is None or e[0] == tag) and not e[3]
    n = number(v.ctx, e[2]) if ok else None
    v.check(name, z3.BoolVal(False) if n is None else want(n), hyps)


@unit('C29', 'proxy_QuickRank.ProxyQuickRank._get_node_xml_element')
def quickrank_node(v):
    from contracts.model import ensemble
    c = v.ctx
    e = ensemble(v)
    etree(v)
    f = v.func(QR + '._get_node_xml_element')
    x0 = v.int('node', 0)
    c.assume(x0 < e.N)
    names = [a.arg for a in f.node.args.args]
    st = dict(top=True)

    def rec(ctx, a, k):
        b = dict(zip(names, a))
        b.update(k)
        x = num(b['node_id'])
        ctx.oblige('precondition of the recursion: a node of smaller rank of the same tree', z3.And(x >= 0, x < e.N, e.rank(x) < e.rank(x0), e.tree(x) == e.tree(x0)))
        return Abstract('XML', {'__closed__': True}, key=('XML', x, b.get('child')))
    for pos in (None, 'left', 'right'):
        def thunk():
            v.cls(QR).members['_get_node_xml_element'] = Builtin('rec', rec)
            return freeze(c, c.call_func(f, [e.obj, x0, pos], {}))
        for p in v.run(thunk):
            if not no_raise(v, p):
                continue
            tag, att, text, kids = p.val
            v.check('a split element, marked with its position (%s)' % pos, z3.BoolVal(tag == 'split' and att == ({'pos': pos} if pos else {}) and blank(text)), p.hyps)
            if v_entails(v, p, e.leaf(x0)):
                v.check('a leaf has one element', z3.BoolVal(len(kids) == 1), p.hyps)
                number_element(v, 'its output', kids[0] if kids else None, lambda n: same32(n, e.value(x0)), p.hyps, 'output')
            elif v_entails(v, p, z3.Not(e.leaf(x0))):
                sub = [k for k in kids if k[0] == 'XML']
                own = {k[0]: k for k in kids[:2]}
                v.check('a split has its feature and threshold, then its two subtrees', z3.BoolVal(len(kids) == 4 and len(sub) == 2 and kids[2:] == sub and sorted(map(str, own)) == ['feature', 'threshold']), p.hyps)
                number_element(v, 'the feature, counted from 1', own.get('feature'), lambda n: n == e.feat(x0) + 1, p.hyps)
                number_element(v, 'the threshold', own.get('threshold'), lambda n: same32(n, e.value(x0)), p.hyps)
                by = {k[2]: k[1] for k in sub}
                v.check('the left and the right subtree', z3.And(by['left'] == e.left(x0), by['right'] == e.right(x0)) if sorted(map(str, by)) == ['left', 'right'] else z3.BoolVal(False), p.hyps)
            else:
                v.check('leaves and splits are told apart', z3.BoolVal(False), p.hyps)


def v_entails(v, p, f):
    return bool(v.prover.prove(p.hyps, f, quick=True))


@unit('C29', 'proxy_QuickRank.ProxyQuickRank._xmlprettyprint')
def quickrank_pretty(v):
    """the texts and tails it sets are blank, texts that are not blank are kept; elements without children keep their text"""
    c = v.ctx
    f = v.func(QR + '._xmlprettyprint')
    names = [a.arg for a in f.node.args.args]
    m, level = v.int('m', 0), v.int('level', 0)
    for text in (None, '', '\n\t', 'MART', '12.5'):
        for tail in (None, '\n', 'x'):
            ev = PyList(c, [])
            state = PyDict(c, dict(text=text, tail=tail))

            def change(who):
                def h(ctx, o, attr, t):
                    if attr not in ('text', 'tail') or not (t is None or isinstance(t, (str, SymStr))):
                        raise Unsupported('change of an element')
                    b = blank(t)
                    if who == 'elem':
                        ctx.oblige('what is set is blank and replaces a blank', z3.BoolVal(b and blank(state.items[attr] if attr == 'text' else '')))
                        state.items = dict(state.items, **{attr: t})
                    else:
                        ctx.oblige('what is set is blank and is not the text of a child', z3.BoolVal(b and attr == 'tail'))
                return h
            child = lambda k: Abstract('child', {'__closed__': True}, dict(setattr=change('child')), key=num(k))
            el = Abstract('element', dict(text=lambda ctx: state.items['text'], tail=lambda ctx: state.items['tail'], __closed__=True),
                          dict(setattr=change('elem'), len=lambda ctx, o: m, seq=lambda ctx, o: (m, child)))

            def rec(ctx, a, k):
                b = dict(zip(names, a))
                b.update(k)
                if not (isinstance(b['elem'], Abstract) and b['elem'].name == 'child'):
                    ctx.oblige('the recursion is on children', z3.BoolVal(False))
                ctx.oblige('precondition of the recursion: level', num(b.get('level', 0)) >= 0)
                if b.get('indent_str', '\t') not in ('\t',):
                    raise Unsupported('indentation')

            def thunk():
                v.cls(QR).members['_xmlprettyprint'] = Builtin('rec', rec)
                return c.call_func(f, [el, level], {})
            for p in v.run(thunk):
                no_raise(v, p)


@unit('C29', 'proxy_QuickRank.ProxyQuickRank.save')
def quickrank_save(v):
    from contracts.model import ensemble, RT
    c = v.ctx
    e = ensemble(v)
    etree(v)
    o = Out(v, OUT)
    pretty = PyList(c, [])
    c.overrides[QR + '._get_node_xml_element'] = lambda ctx, a, k: node_element(ctx, a, k)
    c.overrides[RT + '.max_leaves'] = lambda ctx, a, k: z3.Int('max_leaves')

    def node_element(ctx, a, k):
        b = dict(zip(('model', 'node_id', 'child'), a))
        b.update(k)
        x = num(b['node_id'])
        ctx.oblige('precondition of _get_node_xml_element: a node of the model', z3.And(z3.BoolVal(b['model'] is e.obj), x >= 0, x < e.N))
        return Abstract('XML', {'__closed__': True}, key=('XML', x, b.get('child')))
    c.overrides[QR + '._xmlprettyprint'] = lambda ctx, a, k: None
    for p in v.run(lambda: c.call(v.func(QR + '.save'), [OUT, e.obj], {})):
        if not no_raise(v, p):
            continue
        ev = v.in_state(p, lambda: list(o.events.raw))
        parts = [q for t in ev if isinstance(t, SymStr) for q in t.parts if not (isinstance(q, str) and (not q.strip() or q.startswith('<?xml')))]
        if not (len(parts) == 1 and not isinstance(parts[0], str) and parts[0][0] == 'xml' and all(isinstance(t, SymStr) for t in ev)):
            v.check('one document is written', z3.BoolVal(False), p.hyps)
            continue
        tag, att, text, kids = parts[0][1]

        def clean(k):
            return k[0] not in RESERVED + ('XML', 'ensemble') and not isinstance(k, Seg) and all(clean(x) for x in k[3])
        ens = [k for k in kids if not isinstance(k, Seg) and k[0] == 'ensemble']
        v.check('one ensemble; the other elements are about something else', z3.BoolVal(
            tag not in RESERVED and len(ens) == 1 and all(clean(k) for k in kids if k not in ens)), p.hyps)
        if len(ens) != 1:
            continue
        segs = ens[0][3]
        if not (len(segs) == 1 and isinstance(segs[0], Seg)):
            v.check('the trees of the ensemble', z3.BoolVal(False), p.hyps)
            continue
        k = fresh('k')
        one = v.in_state(p, lambda: segs[0].of(k))
        hy = p.hyps + [k >= 0, k < e.T]
        v.check('one tree per tree of the model', z3.And(num(segs[0].n) == e.T, z3.BoolVal(len(one) == 1 and one[0][0] == 'tree')), hy)
        if len(one) != 1 or one[0][0] != 'tree':
            continue
        w = one[0][1].get('weight')
        w = number(c, w) if w is not None else None
        v.check('its weight', z3.BoolVal(False) if w is None else same32(w, e.weight(k)), hy)
        sub = one[0][3]
        v.check('its root', z3.And(z3.BoolVal(len(sub) == 1 and sub[0][0] == 'XML' and sub[0][2] is None), sub[0][1] == e.root(k)) if len(sub) == 1 and sub[0][0] == 'XML' else z3.BoolVal(False), hy)


# --------------------------------------------------------------------------------------------------------------- drawings of trees

TOP = 'rankeval.visualization.topological.'
EDGE = r'(\d+) -> (\d+) ?(?:\[(?:labeldistance=[^\],]*, ?labelangle=[^\],]*, ?)?headlabel="(True|False)"\] ?)?;'
NODE = r'(\d+) \[label=(?:"(.*?)"|<(.*?)>)(?:, fillcolor="[^"]*")?\] ;'
SPLIT = r'(?:.*(?:\\n|<br/>))?(?:f(?:\[|<FONT POINT-SIZE="10"><SUB>)(\d+)(?:\]|</SUB></FONT>)|(\w+)) *(?:<=|&le;) *' + NUM
LEAFOUT = r'(?:.*(?:\\n|<br/>))?output = ' + NUM
IDLINE = r'node (?:#|&#35;)(\d+)(?:\\n|<br/>).*'
OPTIONS = ('label_show', 'highlight_leaves', 'leaves_parallel', 'node_ids', 'rounded', 'proportion', 'special_characters')


def setup_drawing(v, leaves, names, depth):
    from contracts.model import ensemble, RT
    c = v.ctx
    D = type('D', (), {})()
    e = D.e = ensemble(v)
    D.before = {a: x.frozen() for a, x in e.arr.items()}
    D.k, D.prec = v.int('tree_id', 0), v.int('precision', 0)
    c.assume(D.k < e.T)
    D.opts = {o: z3.Bool(o) for o in OPTIONS}
    D.depth = None
    if depth:
        D.depth = v.int('max_depth', 0)
    D.names = None
    if names:
        nn, w, x = v.int('n_names', 0), z3.Int('w'), fresh('x')
        c.assume(w >= 0, w < e.N, nn == e.feat(w) + 1, z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < e.N), e.feat(x) < nn), patterns=[e.feat(x)]))

        def name(ctx, o, i):
            ctx.oblige('name of a feature that exists', z3.And(num(i) >= 0, num(i) < nn))
            return SymStr(('name', num(i)))
        D.names = Abstract('list of names', {'__closed__': True}, dict(len=lambda ctx, o: nn, getitem=name))
    D.COUNT = opaque('COUNT', I, I)
    D.leaves = Abstract('array', {'__closed__': True}, dict(getitem=lambda ctx, o, q: Abstract('column', {'__closed__': True}))) if leaves else None
    n1 = v.int('n_counts', 1)
    some = lambda f: Seq(n1, lambda i: f(num(i)))

    def dd(ctx, a, k):
        if isinstance(a[0], Extern):
            entry = lambda ctx, o, q: Abstract('list', {'__closed__': True}, dict(append=lambda ctx, o, x: None, seq=lambda ctx, o: (n1, lambda i: SymStr(('str', opaque('RANKED', I, I)(num(i)))))))
            return Abstract('ranks', {'__closed__': True}, dict(getitem=entry, sorted=lambda ctx, o: Seq(n1, lambda i: SymStr(('name', num(i)))), seq=lambda ctx, o: (n1, lambda i: SymStr(('name', num(i))))))
        return Abstract('counts', {'__closed__': True}, dict(getitem=lambda ctx, o, q: D.COUNT(num(q)), setitem=lambda ctx, o, q, x: None, values=lambda ctx, o: some(opaque('COUNTS', I, I))))
    c.overrides['collections.defaultdict'] = dd
    c.overrides['numpy.unique'] = lambda ctx, a, k: (some(opaque('UNIQUE', I, I)), some(opaque('COUNTS', I, I)))
    for m in ('min', 'max'):
        def extreme(ctx, a, k, m=m):
            if not isinstance(a[0], Arr):
                return z3.Real('BOUND_' + m)
            r = N.NP[m](ctx, a, k)
            if a[0] is e.arr['trees_nodes_feature'] and D.names is not None:     # an element is not more than the maximum
                x = e.feat(z3.Int('w'))
                ctx.assume(r >= x if m == 'max' else r <= x)
            return r
        c.overrides['numpy.' + m] = c.overrides['numpy.a' + m] = extreme
    c.overrides[RT + '.num_nodes'] = lambda ctx, a, k: Abstract('array', {'__closed__': True}, dict(getitem=lambda ctx, o, t: e.end(t) - e.root(num(t))))
    c.overrides[TOP + 'export_graphviz.get_color'] = lambda ctx, a, k, f: SymStr(('color', 'c'))
    return D


def drawing_unit(leaves, label, names, depth, out, **fixed):
    @unit('C35', 'visualization.topological.export_graphviz (%s%s%s%s)' % ('label=' + label + ', output_leaves' if leaves else 'no output_leaves', ', feature_names' if names else '',
                                                                   ', max_depth' if depth else '', ', to ' + out + ''.join(', %s=%s' % x for x in sorted(fixed.items()))))
    def drawing(v):
        draw(v, leaves, label, names, depth, out, fixed)


def draw(v, leaves, label, names, depth, out, fixed):
    c = v.ctx
    D = setup_drawing(v, leaves, names, depth)
    D.opts.update(fixed)
    e, k = D.e, D.k
    o = Out(v, OUT)
    o.file.methods['getvalue'] = lambda ctx, s: SymStr(('contents', len(o.events.raw)))
    c.overrides['six.StringIO'] = c.overrides['io.StringIO'] = lambda ctx, a, kw: o.start() or o.file

    def counts_body(ctx, f):
        x = z3.Int('any_node')
        npc = len(ctx.pc)
        names_ = [a.arg for a in f.node.args.args]
        ctx.assume(x >= 0, x < e.N, e.tree(x) == k)
        st['node'] = x
        for q in ctx.explore(lambda: ctx.call_func(f, [dict(ensemble=e.obj, tree_id=k, node_id=x).get(nm, st['counts']) for nm in names_], {})):
            v.check('counting does not fail', z3.BoolVal(q.kind in ('normal', 'return')), ctx.axioms + list(ctx.pc) + list(q.facts))
        del ctx.pc[npc:]
        st['node'] = None
    st = dict(node=None)

    def counts_parse(ctx, f, b):
        x = num(b['node_id'])
        st['counts'] = b['counts']
        ok = b['ensemble'] is e.obj
        ctx.oblige('precondition of the counting: a node of the tree, of smaller rank', z3.And(z3.BoolVal(ok), x >= 0, x < e.N, e.tree(x) == k, *([e.rank(x) < e.rank(st['node'])] if st['node'] is not None else [])))
        return x

    def first(ctx, f, b):
        st['counts'] = b['counts']
    counting = recursive(v, TOP + 'export_graphviz.recursive_count', counts_parse, lambda ctx, x: D.COUNT(x), counts_body, first)

    def body(ctx, f):
        x, par, d = z3.Int('node'), z3.Int('parent'), z3.Int('depth')
        fnames = [a.arg for a in f.node.args.args]
        for has_parent in (False, True):
            npc = len(ctx.pc)
            ctx.assume(x >= 0, x < e.N, e.tree(x) == k, d >= 0)
            if has_parent:
                ctx.assume(par >= 0, par < e.N, e.tree(par) == k, z3.Not(e.leaf(par)), z3.Or(e.left(par) == x, e.right(par) == x), e.rank(x) < e.rank(par))
            st['top'] = x
            n0 = len(o.events.raw)
            args = dict(ensemble=e.obj, tree_id=k, node_id=x, parent_id=par if has_parent else None, depth=d)
            for q in ctx.explore(lambda: ctx.call_func(f, [args[nm] for nm in fnames], {})):
                one_node(ctx, q, n0, x, par if has_parent else None, d)
            st['top'] = None
            del ctx.pc[npc:]

    def one_node(ctx, q, n0, x, par, d):
        hyps = ctx.axioms + list(ctx.pc) + list(q.facts)
        if q.kind not in ('normal', 'return'):
            v.check('no exception (%s)' % q.val, z3.BoolVal(False), hyps)
            return
        npc = len(ctx.pc)
        ctx.pc.extend(q.facts)
        try:
            ls = lines(ctx, v_events(ctx, q, o)[n0:])
            calls = [l[1] for l in ls if l[0] == 'call']
            if any(l[0] == 'part of a line' for l in ls) or [l[0] for l in ls] != ['line'] * (len(ls) - len(calls)) + ['call'] * len(calls):
                v.check('a node is its lines, then its subtrees', z3.BoolVal(False), hyps)
                return
            nodes, edges = [], []
            for l in ls[:len(ls) - len(calls)]:
                g = groups(ctx, l[1], NODE)
                if g is not None:
                    nodes.append(g)
                    continue
                g = groups(ctx, l[1], EDGE)
                if g is None:
                    v.check('every line is a node or an edge', z3.BoolVal(False), hyps)
                    return
                edges.append(g)
            if len(nodes) != 1 or len(edges) != (0 if par is None else 1):
                v.check('a line for the node and one for the edge from its parent', z3.BoolVal(False), hyps)
                return
            v.check('the node drawn', term(nodes[0][0]) == x, hyps)
            for g in edges:
                v.check('the edge from its parent', z3.And(term(g[0]) == par, term(g[1]) == x), hyps)
                if g[2] is not None:
                    v.check('the branch written on an edge: True for the left child', z3.BoolVal(False) if g[2] not in ('True', 'False') else
                            (e.left(par) == x if g[2] == 'True' else z3.And(e.left(par) != x, e.right(par) == x)), hyps)
            deep = z3.BoolVal(False) if D.depth is None else d > D.depth
            lab = nodes[0][1] if nodes[0][1] is not None else nodes[0][2]
            if lab == '(...)':
                v.check('placeholders are below the depth limit', deep, hyps)
                v.check('nothing below a placeholder', z3.BoolVal(not calls), hyps)
                return
            v.check('nodes up to the depth limit are drawn', z3.Not(deep), hyps)
            gi = groups(ctx, lab, IDLINE)
            if gi is not None:
                v.check('node number in the label', term(gi[0]) == x, hyps)
            gs, gl = groups(ctx, lab, SPLIT), groups(ctx, lab, LEAFOUT)
            rounded = opaque('ROUNDTO', R, I, R)(e.value(x), D.prec)
            if gl is not None:
                v.check('a leaf is drawn as a leaf', e.leaf(x), hyps)
                v.check('its output, rounded', term(gl[0]) == rounded, hyps)
                v.check('nothing below a leaf', z3.BoolVal(not calls), hyps)
            elif gs is not None:
                v.check('a split is drawn as a split', z3.Not(e.leaf(x)), hyps)
                ft = gs[0] if gs[0] is not None else gs[1]
                v.check('its feature', z3.And(z3.BoolVal((gs[0] is None) == (D.names is not None)), term(ft) == e.feat(x)), hyps)
                v.check('its threshold, rounded', term(gs[2]) == rounded, hyps)
                v.check('its left subtree, then its right subtree', z3.And(z3.BoolVal(len(calls) == 2 and all(w[0] == 'node' for w in calls)), *([
                    calls[0][1] == e.left(x), calls[1][1] == e.right(x)] + [z3.And(z3.BoolVal(w[2] is not None), w[2] == x, w[3] == d + 1) for w in calls]
                    if len(calls) == 2 else [])), hyps)
            else:
                v.check('the label is that of a split or of a leaf', z3.BoolVal(False), hyps)
        finally:
            del ctx.pc[npc:]

    def parse(ctx, f, b):
        x, p, d = num(b['node_id']), b.get('parent_id'), num(b.get('depth', 0))
        fs = [z3.BoolVal(b['ensemble'] is e.obj and same(b['tree_id'], k)), x >= 0, x < e.N, e.tree(x) == k, d >= 0]
        if p is not None:
            fs += [p >= 0, p < e.N, e.tree(p) == k, z3.Not(e.leaf(p)), z3.Or(e.left(p) == x, e.right(p) == x), e.rank(x) < e.rank(p)]
        if st.get('top') is not None:
            fs.append(e.rank(x) < e.rank(st['top']))
        ctx.oblige('precondition of the recursion: a node of the tree and its parent', z3.And(*fs))
        return ('node', x, p, d)
    drawn = recursive(v, TOP + 'export_graphviz.recurse', parse, lambda ctx, ev: o.emit(ev), body)
    dest = {'string': None, 'file': OUT, 'object': o.file}[out]
    kw = dict(tree_id=k, out_file=dest, max_depth=D.depth, output_leaves=D.leaves, label=label, feature_names=D.names, precision=D.prec, **D.opts)
    for p in v.run(lambda: c.call(v.func(TOP + 'export_graphviz'), [e.obj], kw)):
        if not no_raise(v, p):
            continue
        if not drawn['done']:
            raise Unsupported('the nodes are not drawn by the function recurse')
        ev = v.in_state(p, lambda: list(o.events.raw))
        if out == 'string':
            v.check('the text is returned', z3.BoolVal(isinstance(p.val, SymStr) and p.val.parts == (('contents', len(ev)),)), p.hyps)
        segs = [x for x in ev if isinstance(x, Seg)]
        calls = [x for x in ev if isinstance(x, tuple)]
        v.check('the tree is drawn from its root', z3.And(z3.BoolVal(len(calls) == 1 and calls[0][2] is None), *([calls[0][1] == e.root(k), calls[0][3] == 0] if len(calls) == 1 else [])), p.hyps)
        if len(calls) != 1:
            continue
        at = [i for i, x in enumerate(ev) if x is calls[0]][0]
        head, tail = lines(c, ev[:at]), ev[at + 1:]
        ok = bool(head) and all(l[0] == 'line' for l in head) and groups(c, head[0][1], r'digraph \w* ?{') is not None
        ok = ok and all(groups(c, l[1], r'(?:node|edge|graph) \[.*\] ;') is not None for l in head[1:])
        v.check('a digraph whose first lines are about its appearance', z3.BoolVal(ok), p.hyps)
        for s in segs:
            one = v.in_state(p, lambda: s.of(fresh('k')))
            l1 = lines(c, one)
            v.check('the other lines are about nodes of the same rank', z3.BoolVal(all(x in tail for x in segs) and len(l1) == 1 and l1[0][0] == 'line' and
                    groups(c, l1[0][1], r'{rank=same ;.*} ;') is not None), p.hyps)
        rest = lines(c, [x for x in tail if not isinstance(x, Seg)])
        unchanged(v, [p], [(a, e.arr[a], D.before[a]) for a in e.arr])
        v.check('the digraph is closed', z3.BoolVal(len(rest) == 1 and groups(c, rest[0][1] if rest[0][0] == 'line' else pieces(c, rest[0][1]), r'}') is not None), p.hyps)


for _p in (False, True):
    drawing_unit(False, 'all', False, False, 'string', label_show=_p, leaves_parallel=_p)
    drawing_unit(False, 'all', True, True, 'file', label_show=_p, leaves_parallel=not _p)
    drawing_unit(True, 'all', False, True, 'object', label_show=_p, proportion=not _p)
    drawing_unit(True, 'leaves', True, False, 'string', label_show=_p, proportion=_p)
