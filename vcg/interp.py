"""Symbolic execution of the repository's own source text (Python AST; Cython and C++ are translated to it by the other
front ends).  Loops over symbolic ranges are replaced by closed forms found by solving the recurrences of the loop body;
calls are executed through the callee's contract when one is registered and inlined otherwise."""
import ast, os, time
import z3
from .terms import *
from .values import *
from .prover import Prover, STATS, occurs

NAN = z3.Real('NaN')
MAX_PATHS = 400


class Obligation:
    def __init__(self, name, hyps, goal, where=''):
        self.name, self.hyps, self.goal, self.where = name, hyps, goal, where


class Path:
    def __init__(self, kind, val, pc, post, facts=()):
        self.kind, self.val, self.pc, self.post, self.facts = kind, val, pc, post, facts


def sym_slice(o, k):
    ps = o.parts
    if isinstance(k, slice) and k.step is None and ps:
        if isinstance(k.start, int) and k.start < 0 and k.stop is None and isinstance(ps[-1], str):
            return ps[-1][k.start:] if len(ps[-1]) >= -k.start else SymStr(('part',), ps[-1])
        if isinstance(k.start, int) and k.start < 0 and k.stop is None and ps[-1][0] == 'str':
            return SymStr(('part',), ps[-1])
        if k.start is None and isinstance(k.stop, int) and k.stop < 0 and isinstance(ps[-1], str) and len(ps[-1]) >= -k.stop:
            return SymStr(*(ps[:-1] + (ps[-1][:k.stop],)))
        if isinstance(k.start, int) and k.start >= 0 and k.stop is None and isinstance(ps[0], str) and len(ps[0]) >= k.start:
            return SymStr(*((ps[0][k.start:],) + ps[1:]))
    raise Unsupported('part of a text')


class Module:
    def __init__(self, ctx, name, path, tree):
        self.ctx, self.name, self.path, self.tree = ctx, name, path, tree
        self.cache = {}
        self.defs = {}
        self._index(tree.body)

    def _index(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = n
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.defs[a.asname or a.name.split('.')[0]] = (n, a)
            elif isinstance(n, ast.Try):
                self._index(n.body)
            elif isinstance(n, ast.If):
                # "if is_notebook(): ... else: ..." -> the verified configuration is outside a notebook
                self._index(n.orelse if n.orelse else n.body)

    def get(self, name):
        if name in self.cache:
            return self.cache[name]
        if name not in self.defs:
            raise KeyError(name)
        d = self.defs[name]
        v = self.ctx.module_def(self, name, d)
        self.cache[name] = v
        return v


class Ctx:
    def __init__(self, root, overrides=None, frontends=None):
        self.root = root
        self.overrides = overrides or {}
        self.frontends = frontends or {}
        self.modules = {}
        self.executed = {}
        self.prover = Prover()
        self.max_seconds = 240
        self.nowrap = False       # executing C code: no negative indices
        self.loop_contracts = {}
        self.for_specs = {}
        self.t0 = time.time()
        self.reset()
        from . import npmodel
        self.np = npmodel

    def reset(self):
        self.heap = []
        self.missing = set()     # prefixes of symbols that stand for locals of cut loops without an inductive value
        import itertools
        self.counter = itertools.count()
        self.pc = []
        self.dec = []          # the branch decisions among the path facts
        self.axioms = []       # closed definitional facts about the symbols introduced so far
        self.loop_idx = []
        self.prefix, self.pos, self.alts, self.trace = [], 0, [], []
        self.obls = []
        self.record = True
        self.perms = []
        self.ghost = {}
        self.depth = 0
        self.calls = []
        self.used_externs = getattr(self, "used_externs", set())
        for m in self.modules.values():
            m.cache = {k: v for k, v in m.cache.items() if isinstance(v, (ClassVal, FuncVal, Extern, Module))}

    # -- assumptions, obligations, branching ------------------------------------------------------------------
    def assume(self, *fs):
        for f in fs:
            self.pc.append(boolean(f))

    def oblige(self, name, goal, where=''):
        if self.record:
            self.obls.append(Obligation(name, self.axioms + list(self.pc), boolean(goal), where))

    def entails(self, goal):
        g = z3.simplify(boolean(goal))
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        fs = self.axioms + self.pc
        return self.prover.direct(fs, g) or bool(self.prover.prove(fs, g, depth=3, quick=True))

    def feasible(self, f):
        s = z3.Solver()
        s.set('timeout', 400)
        for p in self.pc:
            if not z3.is_quantifier(p):
                s.add(p)
        s.add(f)
        t = time.time()
        r = s.check()
        STATS.solver_s += time.time() - t
        return r != z3.unsat

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = boolean(cond)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if time.time() - self.t0 > self.max_seconds:
            raise Unsupported('time budget of the symbolic execution exhausted')
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.pc.append(cond if d else z3.Not(cond))
            self.dec.append(self.pc[-1])
            return d
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond))
        if t and f:
            self.alts.append(self.trace + [False])
            d = True
        elif t:
            d = True
        elif f:
            d = False
        else:
            raise Infeasible()
        self.pos += 1
        self.trace.append(d)
        self.prefix = self.trace[:]
        self.pc.append(cond if d else z3.Not(cond))
        self.dec.append(self.pc[-1])
        return d

    def snapshot(self):
        return [(o, o.state()) for o in self.heap]

    def restore(self, snap):
        for o, s in snap:
            o.set_state(s)

    def explore(self, thunk):
        """all paths of thunk from the current state; the state is restored afterwards"""
        results, work = [], [[]]
        snap, npc, ndec = self.snapshot(), len(self.pc), len(self.dec)
        saved = (self.prefix, self.pos, self.alts, self.trace)
        nheap = len(self.heap)
        try:
            while work:
                if len(results) > MAX_PATHS:
                    raise Unsupported('too many paths')
                self.prefix, self.pos, self.alts, self.trace = work.pop(), 0, [], []
                kind, val = 'normal', None
                try:
                    val = thunk()
                except ReturnSig as e:
                    kind, val = 'return', e.v
                except BreakSig:
                    kind = 'break'
                except ContinueSig:
                    kind = 'normal'
                except PyExc as e:
                    kind, val = 'raise', e
                except Infeasible:
                    kind = None
                if kind:
                    results.append(Path(kind, val, self.dec[ndec:], self.snapshot(), self.pc[npc:]))
                work += self.alts
                self.restore(snap)
                del self.pc[npc:]
                del self.dec[ndec:]
        finally:
            self.prefix, self.pos, self.alts, self.trace = saved
        return results

    # -- modules ----------------------------------------------------------------------------------------------------
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(self.root, *name.split('.'))
        for p in (base + '.py', os.path.join(base, '__init__.py'), base + '.pyx'):
            if os.path.exists(p):
                with open(p, encoding='utf-8') as f:
                    src = f.read()
                types = None
                if p.endswith('.pyx'):
                    from .front_cython import cython_to_python, attach
                    try:
                        src, types = cython_to_python(src)
                    except ValueError as e:
                        raise Unsupported(str(e))
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    try:
                        tree = ast.parse(src)
                    except SyntaxError as e:
                        raise Unsupported('cannot parse %s: %s' % (name, e))
                if types is not None:
                    attach(tree, types)
                m = Module(self, name, p, tree)
                self.modules[name] = m
                return m
        raise Unsupported('module %s not found' % name)

    def shim(self, name, path):
        """a module whose source is a contract (an assumed dependency written in the same language)"""
        if name not in self.modules:
            with open(path, encoding='utf-8') as f:
                self.modules[name] = Module(self, name, path, ast.parse(f.read()))
        return self.modules[name]

    def module_def(self, mod, name, d):
        q = mod.name + '.' + name
        if q in self.overrides and not isinstance(d, (ast.ClassDef,)):
            return Builtin(q, self.overrides[q])
        if isinstance(d, ast.FunctionDef):
            return FuncVal(d, mod, None, None, q)
        if isinstance(d, ast.ClassDef):
            return self.make_class(d, mod)
        if isinstance(d, ast.Assign):
            return self.eval(d.value, Frame(self), mod)
        node, alias = d
        if isinstance(node, ast.Import):
            top = alias.name.split('.')[0]
            if top == 'rankeval':
                return self.module(alias.name if alias.asname else top)
            return Extern(self.canon(alias.name if alias.asname else top))
        src = node.module or ''
        if node.level:
            parts = mod.name.split('.')
            is_pkg = mod.path.endswith('__init__.py')
            parts = parts[:len(parts) - node.level + (1 if is_pkg else 0)]
            src = '.'.join(parts + ([src] if src else []))
        if src.split('.')[0] == 'rankeval':
            full = src + '.' + alias.name
            if full in self.overrides:
                return Builtin(full, self.overrides[full])
            try:
                m = self.module(src)
                if alias.name in m.defs:
                    return m.get(alias.name)
            except Unsupported:
                pass
            return self.module(full)
        if src in ('six.moves', 'builtins') and alias.name in self.np.BUILTINS:
            return Builtin(alias.name, self.np.BUILTINS[alias.name])
        return Extern(self.canon(src + '.' + alias.name))

    @staticmethod
    def canon(p):
        return p

    def make_class(self, d, mod):
        bases = []
        for b in d.bases:
            try:
                v = self.eval(b, Frame(self), mod)
            except (Unsupported, PyExc):
                v = None
            if isinstance(v, ClassVal):
                bases.append(v)
        c = ClassVal(d.name, bases, mod, d)
        fr = Frame(self)
        for n in d.body:
            if isinstance(n, ast.FunctionDef):
                q = '%s.%s.%s' % (mod.name, d.name, n.name)
                decs = [x.id for x in n.decorator_list if isinstance(x, ast.Name)]
                if q in self.overrides:
                    c.members[n.name] = Builtin(q, self.overrides[q])
                else:
                    c.members[n.name] = FuncVal(n, mod, c, fr, q)
                if 'staticmethod' in decs:
                    c.static.add(n.name)
                if 'classmethod' in decs or 'property' in decs:
                    c.klass.add(n.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        v = self.eval(n.value, fr, mod)
                        c.members[t.id] = v
                        fr.vars[t.id] = v
        return c

    # -- statements ----------------------------------------------------------------------------------------------------
    def exec_block(self, body, fr, mod):
        for s in body:
            self.exec(s, fr, mod)

    def exec(self, s, fr, mod):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, fr, mod)

    def x_Pass(self, s, fr, mod):
        pass

    x_Import = x_ImportFrom_ = None

    def x_Import(self, s, fr, mod):
        for a in s.names:
            fr.vars[a.asname or a.name.split('.')[0]] = self.module_def(mod, a.asname or a.name, (s, a))

    x_ImportFrom = x_Import

    def x_Global(self, s, fr, mod):
        raise Unsupported('global')

    def x_Expr(self, s, fr, mod):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            v = self.eval(s.value.value, fr, mod)
            self.yield_hook(v)
            return
        self.eval(s.value, fr, mod)

    def yield_hook(self, v):
        raise Unsupported('yield outside a fused loop')

    def x_Assert(self, s, fr, mod):
        c = self.truth(self.eval(s.test, fr, mod))
        if not self.branch(c):
            raise PyExc('AssertionError')

    def x_Raise(self, s, fr, mod):
        if s.exc is None:
            raise PyExc('reraise')
        e = s.exc
        try:
            if isinstance(e, ast.Call):
                nm = ast.unparse(e.func)
                for a in e.args:
                    try:
                        self.eval(a, fr, mod)
                    except Unsupported:
                        pass
                if not isinstance(e.func, ast.Name):
                    # e.g. raise X(...).format(...): evaluate to see what is really raised
                    v = self.eval(e.func, fr, mod)
                    raise PyExc('AttributeError')
            else:
                nm = ast.unparse(e)
        except PyExc:
            raise
        raise PyExc(nm)

    def x_Return(self, s, fr, mod):
        raise ReturnSig(None if s.value is None else self.eval(s.value, fr, mod))

    def x_Break(self, s, fr, mod):
        raise BreakSig()

    def x_Continue(self, s, fr, mod):
        raise ContinueSig()

    def x_Delete(self, s, fr, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            else:
                raise Unsupported('del')

    def x_FunctionDef(self, s, fr, mod):
        q = getattr(fr, 'qual', '') + '.' + s.name
        if q in self.overrides:
            fr.vars[s.name] = Builtin(q, lambda ctx, args, kw, _fr=fr, _q=q, _s=s, _m=mod: ctx.overrides[_q](
                ctx, args, kw, FuncVal(_s, _m, None, _fr, _q)))
        else:
            fr.vars[s.name] = FuncVal(s, mod, None, fr, q)

    def x_If(self, s, fr, mod):
        c = self.truth(self.eval(s.test, fr, mod))
        self.exec_block(s.body if self.branch(c) else s.orelse, fr, mod)

    def x_With(self, s, fr, mod):
        for it in s.items:
            v = self.eval(it.context_expr, fr, mod)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr, mod)
        self.exec_block(s.body, fr, mod)

    def x_Try(self, s, fr, mod):
        try:
            try:
                self.exec_block(s.body, fr, mod)
            except PyExc as e:
                for h in s.handlers:
                    names = [] if h.type is None else [ast.unparse(x).split('.')[-1] for x in
                                                       (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if h.type is None or e.cls in names or 'Exception' in names:
                        if h.name:
                            fr.vars[h.name] = Abstract('exception')
                        self.exec_block(h.body, fr, mod)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr, mod)
        finally:
            if s.finalbody:
                self.exec_block(s.finalbody, fr, mod)

    def x_Assign(self, s, fr, mod):
        v = self.eval(s.value, fr, mod)
        for t in s.targets:
            self.assign(t, v, fr, mod)

    def x_AnnAssign(self, s, fr, mod):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr, mod), fr, mod)

    def assign(self, t, v, fr, mod):
        if isinstance(t, ast.Name):
            ann = getattr(fr, 'ctypes', {}).get(t.id)
            if ann and isinstance(v, (int, float)) or ann and is_z3(v):
                v = self.np.c_convert(self, v, ann)
            fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for tt, x in zip(t.elts, items):
                self.assign(tt, x, fr, mod)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr, mod)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr, mod)
            k = self.eval_index(t.slice, fr, mod)
            self.setitem(o, k, v)
        else:
            raise Unsupported('assignment target')

    def setattr(self, o, attr, v):
        if isinstance(o, Obj):
            o.attrs[attr] = v
            return
        if isinstance(o, Arr) and attr == 'shape':
            raise Unsupported('in-place reshape')
        if isinstance(o, Abstract) and 'setattr' in o.methods:
            return o.methods['setattr'](self, o, attr, v)
        raise Unsupported('attribute store on %s' % type(o).__name__)

    def unpack(self, v, n):
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, PyList):
            items = v.items
        elif isinstance(v, Seq) and not is_z3(v.n):
            items = [v.elem(i) for i in range(v.n)]
        elif isinstance(v, Arr) and v.ndim >= 1 and isinstance(v.shape[0], int):
            items = [self.getitem(v, i) for i in range(v.shape[0])]
        else:
            raise Unsupported('unpacking %s' % type(v).__name__)
        if len(items) != n:
            raise PyExc('ValueError')
        return items

    def x_AugAssign(self, s, fr, mod):
        t = s.target
        rhs = self.eval(s.value, fr, mod)
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr, mod)
            if isinstance(cur, Arr):
                self.np.inplace(self, cur, s.op, rhs)
                return
            if isinstance(cur, PyList) and isinstance(s.op, ast.Add):
                cur.raw = cur.raw + self.segments(rhs)
                return
            # closures may update variables of the enclosing frame only through nonlocal: plain assignment here
            self.assign(t, self.binop(s.op, cur, rhs), fr, mod)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr, mod)
            cur = self.getattr(o, t.attr)
            if isinstance(cur, Arr):
                self.np.inplace(self, cur, s.op, rhs)
                return
            self.setattr(o, t.attr, self.binop(s.op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr, mod)
            k = self.eval_index(t.slice, fr, mod)
            cur = self.getitem(o, k)
            if isinstance(cur, Arr) and cur.ndim > 0 and self.np.is_basic(k):
                self.np.inplace(self, cur, s.op, rhs)
                return
            self.setitem(o, k, self.binop(s.op, cur, rhs))

    # -- loops ------------------------------------------------------------------------------------------------------------
    def seq(self, it):
        """iterable -> (length, elem function)"""
        if isinstance(it, (PyList,)):
            if it.symbolic:
                return self.seq_of(it)
            items = list(it.items)
            return len(items), lambda i: items[i]
        if isinstance(it, (list, tuple)):
            items = list(it)
            return len(items), lambda i: items[i]
        if isinstance(it, str):
            return len(it), lambda i: it[i]
        if isinstance(it, Seq):
            return it.n, it.elem
        if isinstance(it, Arr):
            n = it.shape[0]
            return n, (lambda i: self.getitem(it, i))
        if isinstance(it, PyDict):
            items = list(it.items.keys())
            return len(items), lambda i: items[i]
        if isinstance(it, GenVal):
            return self.fuse(it)
        if isinstance(it, Abstract) and 'seq' in it.methods:
            return it.methods['seq'](self, it)
        raise Unsupported('iteration over %s' % type(it).__name__)

    def segments(self, v):
        """the items of an iterable, as parts of a list"""
        if isinstance(v, PyList):
            return list(v.raw)
        n, elem = self.seq(v)
        n = conc(n)
        if isinstance(n, int):
            return [elem(i) for i in range(n)]
        return [Seg(n, lambda i: [elem(i)])]

    def seq_of(self, l):
        """a list with symbolic parts (one element per index) as (length, element)"""
        parts, start = [], z3.IntVal(0)
        for x in l.raw:
            if isinstance(x, Marker):
                raise Unsupported('list read in the loop that extends it')
            if isinstance(x, Seg):
                if len(x.of(z3.Int('any!'))) != 1:
                    raise Unsupported('iteration over a list of nested segments')
                parts.append((start, x.n, lambda i, x=x: x.of(i)[0]))
                start = start + num(x.n)
            else:
                parts.append((start, 1, lambda i, x=x: x))
                start = start + 1
        total = z3.simplify(start)

        def elem(i):
            if len(parts) == 1:
                return parts[0][2](i)
            i = num(i)
            r = None
            for st, n, f in reversed(parts):
                off = z3.simplify(i - st)
                v = f(off)
                if r is None:
                    r = v
                    continue
                if not (is_z3(v) or isinstance(v, (int, float))):
                    c = self.branch(i < st + num(n))
                    r = v if c else r
                else:
                    r = ite(i < st + num(n), v, r)
            return r
        return total, elem

    def fuse(self, g):
        """generator made of straight-line code and one loop that yields exactly once per iteration"""
        fr, mod, body = g.frame, g.func.module, g.func.node.body
        k = 0
        while k < len(body) and not has_yield(body[k]):
            self.exec(body[k], fr, mod)
            k += 1
        if k >= len(body) or not isinstance(body[k], ast.For) or any(has_yield(s) for s in body[k + 1:]):
            raise Unsupported('generator shape')
        loop = body[k]
        n, elem = self.seq(self.eval(loop.iter, fr, mod))

        def get(i):
            # one iteration; its writes to the generator's own frame do not escape
            saved = dict(fr.vars)
            got = []
            hook, self.yield_hook = self.yield_hook, got.append
            try:
                self.assign(loop.target, elem(i), fr, mod)
                try:
                    self.exec_block(loop.body, fr, mod)
                except ContinueSig:
                    pass
            finally:
                self.yield_hook = hook
            new = {x for x in fr.vars if x not in saved}
            fr.vars.clear()
            fr.vars.update(saved)
            if len(got) != 1:
                raise Unsupported('generator yields %d values in an iteration' % len(got))
            return got[0]
        if carries_state(loop):
            raise Unsupported('generator loop carries state')
        return n, get

    def x_For(self, s, fr, mod):
        it = self.eval(s.iter, fr, mod)
        if s.orelse:
            raise Unsupported('for/else')
        if isinstance(it, Abstract) and 'for' in it.methods:
            def one(x):
                try:
                    self.assign(s.target, x, fr, mod)
                    self.exec_block(s.body, fr, mod)
                except ContinueSig:
                    pass
            try:
                it.methods['for'](self, it, one, fr, '%s:%d' % (mod.name, s.lineno))
            except BreakSig:
                pass
            return
        n, elem = self.seq(it)
        n = conc(n)
        parallel = getattr(it, 'kind', '') == 'prange'
        if isinstance(n, int) and n <= 64:
            for i in range(n):
                self.assign(s.target, elem(i), fr, mod)
                try:
                    self.exec_block(s.body, fr, mod)
                except BreakSig:
                    return
                except ContinueSig:
                    pass
            return
        self.loop(num(n), lambda i: (self.assign(s.target, elem(i), fr, mod), self.exec_block(s.body, fr, mod)),
                  fr, where='%s:%d' % (mod.name, s.lineno), parallel=parallel)

    def loop(self, n, body, fr, where='', parallel=False, hide=()):
        """closed form of `for i in range(n): body(i)`"""
        h = self.for_specs.get(getattr(fr, 'qual', ''))
        if h is not None and h(self, n, body, fr, where, parallel):
            return
        i = fresh('i')
        self.loop_idx.append(i)
        try:
            return self._loop(i, n, body, fr, where, parallel)
        finally:
            self.loop_idx.remove(i)

    def _loop(self, i, n, body, fr, where, parallel):
        rec, self.record = self.record, False
        if not self.entails(n >= 0):
            n = z3.If(n >= 0, n, z3.IntVal(0))
        havoc = {}       # (obj, key) -> (symbol/function, kind)
        base = self.snapshot()
        base_pc = len(self.pc)
        # start with what this loop was seen to modify before
        known = self.ghost.setdefault('loop state', {}).setdefault(where, {})
        here = {id(o) for o, st in base}
        for key in known.values():
            if id(key[0]) in here:
                havoc[key] = self.make_havoc(key, base)
        try:
            for _round in range(12):
                self.restore(base)
                del self.pc[base_pc:]
                self.assume(i >= 0, i < n)
                for key, h in havoc.items():
                    self.install(key, h)
                pre = {id(o): (o, st) for o, st in self.snapshot()}
                paths = self.explore(lambda: body(i))
                new = False
                touched = set()
                for p in paths:
                    if p.kind != 'normal':
                        continue
                    for key, was in self.changed(pre, p.post):
                        touched.add((id(key[0]), key[1]))
                        if key not in havoc:
                            havoc[key] = self.make_havoc(key, base)
                            if havoc[key][0] in ('buf', 'scalar', 'temp'):
                                known[(id(key[0]), key[1])] = key
                            new = True
                # remembered from another execution of this loop, not modified by this one
                for key in [key for key in havoc if (id(key[0]), key[1]) in known and (id(key[0]), key[1]) not in touched]:
                    del havoc[key], known[(id(key[0]), key[1])]
                    new = True
                if not new:
                    break
            else:
                raise Unsupported('loop state does not stabilise')
        finally:
            self.record = rec
            self.restore(base)
            del self.pc[base_pc:]
        normal = [p for p in paths if p.kind == 'normal']
        exits = [p for p in paths if p.kind in ('break', 'return', 'raise')]
        pn = [(z3.And(*p.pc) if p.pc else z3.BoolVal(True), p) for p in normal]
        # post expression of every modified cell
        exprs = {}
        for key, h in havoc.items():
            exprs[key] = self.post_expr(key, h, pn)
        closed = self.solve(havoc, exprs, i, n, base, where)

        lists = {key: exprs[key] for key, h in havoc.items() if h[0] == 'list'}
        texts = {key for key, h in havoc.items() if h[0] == 'text' and exprs[key] is not None}

        def added(key, j):
            """the text that iteration j appends"""
            snap, npc, r0 = self.snapshot(), len(self.pc), self.record
            self.record = False
            try:
                state_at(num(j))
                self.install(key, havoc[key])
                self.assume(num(j) >= 0, num(j) < n)
                got = [p for p in self.explore(lambda: body(num(j))) if p.kind == 'normal']
                if len(got) != 1:
                    raise Unsupported('appended text depends on the path')
                st = next(s for oo, s in got[0].post if oo is key[0])
                return SymStr(*st[key[1]].parts[1:])
            finally:
                self.restore(snap)
                del self.pc[npc:]
                self.record = r0

        def appended(key, j):
            """the elements that iteration j appends: the body is run again in the state of that iteration"""
            snap, npc, r0 = self.snapshot(), len(self.pc), self.record
            self.record = False
            try:
                state_at(num(j))
                self.assume(num(j) >= 0, num(j) < n)
                got = []
                for p in self.explore(lambda: body(num(j))):
                    if p.kind == 'normal':
                        st = next(s for oo, s in p.post if oo is key[0])
                        got.append((z3.And(*p.pc) if p.pc else z3.BoolVal(True), st))
                n0 = len(next(st for oo, st in entry if oo is key[0])) + (0 if same(j, 0) else 1)
                if len(got) == 1:
                    return got[0][1][n0:]
                if any(len(st) != len(got[0][1]) for _, st in got):
                    raise Unsupported('different numbers of elements appended')
                out = []
                for xs in zip(*[st[n0:] for _, st in got]):
                    if not all(is_z3(x) or isinstance(x, (int, float)) for x in xs):
                        raise Unsupported('appended elements depend on the path')
                    r = xs[-1]
                    for (c, _), x in reversed(list(zip(got, xs))[:-1]):
                        r = ite(c, x, r)
                    out.append(r)
                return out
            finally:
                self.restore(snap)
                del self.pc[npc:]
                self.record = r0
        entry = base

        def state_at(k):
            self.restore(base)
            for key, h in havoc.items():
                if key in lists:
                    if not same(k, 0):
                        st = next(s for oo, s in base if oo is key[0])
                        key[0].raw = list(st) + [Seg(k, lambda j, key=key: appended(key, j))]
                    continue
                if key in texts:
                    self.cell_set(key[0], key[1], SymStr(havoc[key][2], ('cat', k, lambda j, key=key: added(key, j))))
                    continue
                self.install_closed(key, h, closed, k)
        for key, h in havoc.items():
            if parallel and h[0] in ('buf',):
                self.parallel_ok(key, h, exprs[key], i, n, where)
        # the body once more, from the closed-form state of an arbitrary iteration, to record its own obligations
        if rec:
            state_at(i)
            self.assume(i >= 0, i < n)
            if exits:
                self.assume_no_exit_before(exits, closed, havoc, i, base)
            obs = self.obls
            self.obls = []
            self.record = True
            self.explore(lambda: body(i))
            obs += self.obls
            self.obls = obs
            self.restore(base)
            del self.pc[base_pc:]
        if not exits:
            state_at(n)
            return
        # early exit: K is the first iteration that leaves the loop
        ec = z3.Or(*[z3.And(*p.pc) if p.pc else z3.BoolVal(True) for p in exits])
        sub = self.closed_subst(closed, havoc)
        stays = z3.And(n >= 0)
        exit_at = lambda j: sub(z3.substitute(ec, (i, num(j))), num(j))
        K = solve_first(exit_at, n)
        self.assume(K >= 0, z3.Implies(n >= 0, K <= n))
        jj = fresh('e')
        if self.branch(K < n):
            self.assume(exit_at(K))
            self.assume(z3.ForAll([jj], z3.Implies(z3.And(jj >= 0, jj < K), z3.Not(exit_at(jj)))))
            state_at(K)
            try:
                body(K)
            except BreakSig:
                return
            except ContinueSig:
                pass
            raise Infeasible()
        self.assume(z3.ForAll([jj], z3.Implies(z3.And(jj >= 0, jj < n), z3.Not(exit_at(jj)))))
        state_at(n)

    def spec_loop(self, n, body, fr, inv, cands=None, lists=None, where='', name='loop', facts=None):
        """`for i in range(n): body(i)` cut by an invariant that does not name local variables.
        inv(k, bufs): formulas over the current state, true before iteration k (bufs: the storage the loop writes, with its contents
        before the loop); facts(k): instances for iteration k of definitions of ghost symbols;
        cands(k): terms; each scalar modified by the loop is given the candidates x = c(k) and x = (k = 0 ? x0 : c(k)), those that are
        not inductive are dropped (Houdini); lists: contents of the lists modified by the loop before iteration k"""
        cands, lists, facts = cands or (lambda k: []), lists or (lambda k: None), facts or (lambda k: [])
        n = num(n)
        self.assume(n >= 0)
        i = fresh('i')
        base, base_pc = self.snapshot(), len(self.pc)
        base_dec = len(self.dec)
        saved = (list(self.prefix), self.pos, list(self.alts), list(self.trace))
        rec, self.record = self.record, False
        havoc, forms = {}, {}
        # start with what this loop was seen to modify before, and with the values found before
        known = self.ghost.setdefault('cut loop state', {}).setdefault((where, name), {})
        here = {id(o) for o, st in base}
        for key, keep in list(known.values()):
            if id(key[0]) in here:
                havoc[key] = self.make_havoc(key, base)

        def bufs():
            return [(key[0], h[2]) for key, h in havoc.items() if h[0] == 'buf']

        def state(k, at_entry=False):
            self.restore(base)
            for key, h in havoc.items():
                o, nm = key
                if h[0] == 'list':
                    l = lists(k)
                    if l is None:
                        raise Unsupported('list modified in a loop without a contract for its contents')
                    o.raw = list(l)
                elif h[0] == 'buf':
                    f = fresh_fun('sbuf', *([I] * o.ndim + [h[1].range()]))
                    o.read = lambda *b, f=f: f(*[num(x) for x in b])
                elif h[0] == 'scalar':
                    fs = [forms[key][1][q] for q in forms[key][0]] if key in forms else None
                    self.cell_set(o, nm, fs[0](k) if fs else fresh('s_' + str(nm), h[1].sort()))
                    self.assume(*[fs[0](k) == f(k) for f in (fs or [])[1:]])
                else:
                    self.cell_set(o, nm, Poison('value of %s at the start of an iteration' % (nm,)))

        def candidates(h, keep=None):
            srt = h[1].sort()
            x0 = coerce(h[2], srt)
            out = [lambda k: x0]
            for c in range(len(cands(z3.IntVal(0)))):
                if coerce_ok(cands(z3.IntVal(0))[c], srt):
                    out.append(lambda k, c=c: coerce(cands(k)[c], srt))
                    out.append(lambda k, c=c: ite(num(k) == 0, x0, coerce(cands(k - 1)[c], srt)))
            return [q for q, f in enumerate(out) if (keep is None or q in keep) and self.entails(f(z3.IntVal(0)) == x0)], out
        try:
            for key, h in havoc.items():
                if h[0] == 'scalar':
                    forms[key] = candidates(h, known[(id(key[0]), key[1])][1])
            tries = 0
            for _round in range(30):
                self.restore(base)
                del self.pc[base_pc:]
                self.assume(i >= 0, i < n)
                state(i)
                self.assume(*facts(i))
                for f in inv(i, bufs()):
                    self.assume(f)
                pre = {id(o): (o, st) for o, st in self.snapshot()}
                again = False

                def go():
                    body(i)
                    # the surviving candidates after this iteration
                    out = {}
                    for key, (qs, fns) in forms.items():
                        o, nm = key
                        v = (o.vars if isinstance(o, Frame) else o.attrs if isinstance(o, Obj) else o.items).get(nm)
                        ok = []
                        for q in qs:
                            w = fns[q](i + 1)
                            if (is_z3(v) or isinstance(v, (int, float))) and self.entails(coerce(v, w.sort()) == w if coerce_ok(v, w.sort()) else z3.BoolVal(False)):
                                ok.append(q)
                        out[key] = ok
                    return out
                paths = self.explore(go)
                touched = set()
                for p in paths:
                    if p.kind != 'normal':
                        continue
                    for key, was in self.changed(pre, p.post):
                        touched.add((id(key[0]), key[1]))
                        if key not in havoc:
                            h = havoc[key] = self.make_havoc(key, base)
                            if h[0] == 'scalar':
                                self.restore(base)
                                del self.pc[base_pc:]
                                forms[key] = candidates(h)
                            again = True
                # remembered from another execution of this loop, not modified by this one
                for key in [key for key in havoc if (id(key[0]), key[1]) in known and (id(key[0]), key[1]) not in touched]:
                    del havoc[key], known[(id(key[0]), key[1])]
                    forms.pop(key, None)
                    again = True
                if not again:
                    for p in paths:
                        if p.kind != 'normal':
                            continue
                        for key, ok in p.val.items():
                            if len(ok) < len(forms[key][0]):
                                forms[key] = ([q for q in forms[key][0] if q in ok], forms[key][1])
                                again = True
                if not again and tries == 0 and any(not qs and known.get((id(key[0]), key[1]), (key, None))[1] is not None for key, (qs, _) in forms.items()):
                    # the values found before do not fit: start again with all the candidates
                    tries, again = 1, True
                    self.restore(base)
                    del self.pc[base_pc:]
                    for key, h in havoc.items():
                        if h[0] == 'scalar':
                            forms[key] = candidates(h)
                if not again:
                    break
            else:
                raise Unsupported('loop state does not stabilise')
            for key, h in havoc.items():
                if h[0] in ('buf', 'scalar', 'temp', 'list'):
                    known[(id(key[0]), key[1])] = (key, list(forms[key][0]) if key in forms and forms[key][0] else None)
            exits = any(p.kind != 'normal' for p in paths)
        finally:
            self.record = rec
            self.restore(base)
            del self.pc[base_pc:]
            del self.dec[base_dec:]
            self.prefix, self.pos, self.alts, self.trace = saved
        self.restore(base)
        self.missing.update('s_%s!' % key[1] for key, fs in forms.items() if not fs[0])
        zero = z3.IntVal(0)
        for key, h in havoc.items():
            if h[0] == 'list':
                self.same_list('%s: contents of the list on entry' % name, key[0].raw, lists(zero), where)
        for q, f in enumerate(inv(zero, bufs())):
            self.oblige('%s: invariant %d holds on entry' % (name, q), f, where)
        k = fresh('k')
        if (self.record or exits) and self.branch(z3.And(fresh('iteration', B), n > 0)):
            self.assume(k >= 0, k < n)
            state(k)
            self.assume(*facts(k))
            for f in inv(k, bufs()):
                self.assume(f)
            body(k)
            for key, h in havoc.items():
                if h[0] == 'list':
                    self.same_list('%s: contents of the list after an iteration' % name, key[0].raw, lists(k + 1), where)
            for q, f in enumerate(inv(k + 1, bufs())):
                self.oblige('%s: invariant %d is preserved' % (name, q), f, where)
            raise Infeasible()
        state(n)
        for f in inv(n, bufs()):
            self.assume(f)

    def same_list(self, what, got, want, where):
        got = [x for x in got if not (isinstance(x, Seg) and same(x.n, 0))]
        want = [x for x in want if not (isinstance(x, Seg) and same(x.n, 0))]
        if len(got) == len(want) and all(g is w for g, w in zip(got, want)):
            return
        a, b = PyList(self, got), PyList(self, want)
        (n, f), (m, g) = [(num(q), e) for q, e in (self.seq(a), self.seq(b))]
        self.oblige(what + ': length', n == m, where)
        if not want:
            return
        # element by element, by position in the parts of the list
        j = fresh('j')
        pos, npc = z3.IntVal(0), len(self.pc)
        for x in got:
            ln = num(x.n) if isinstance(x, Seg) else z3.IntVal(1)
            self.assume(j >= 0, j < ln)
            u = x.of(j)[0] if isinstance(x, Seg) else x
            p = z3.simplify(pos + (j if isinstance(x, Seg) else 0))
            w = self.element(want, p)
            self.oblige(what + ': elements', self.same_element(u, w), where)
            pos = z3.simplify(pos + ln)
            del self.pc[npc:]

    def element(self, parts, p):
        """element at position p of a concatenation: an if-then-else over the parts, componentwise"""
        start, out = z3.IntVal(0), []
        for x in parts:
            ln = num(x.n) if isinstance(x, Seg) else z3.IntVal(1)
            out.append((start + ln, x.of(z3.simplify(p - start))[0] if isinstance(x, Seg) else x))
            start = start + ln
        r = out[-1][1] if out else None
        for end, v in reversed(out[:-1]):
            r = self.merge(p < end, v, r)
        return r

    def merge(self, c, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (str, Abstract)) or isinstance(b, (str, Abstract)):
            ka, kb = flag_of(a), flag_of(b)
            return Flag(ite(c, ka[0], kb[0]), ka[1] or kb[1])
        return ite(c, a, b)

    def same_element(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return z3.And(*[self.same_element(x, y) for x, y in zip(a, b)])
        if isinstance(a, (str, Abstract)) or isinstance(b, (str, Abstract)):
            names = next((x.key[2] for x in (a, b) if isinstance(x, Abstract)), None)
            if names is None:
                return z3.BoolVal(a == b)
            return flag_of(a, names)[0] == flag_of(b, names)[0]
        return num(a) == num(b)

    def assume_no_exit_before(self, exits, closed, havoc, i, base):
        ec = z3.Or(*[z3.And(*p.pc) if p.pc else z3.BoolVal(True) for p in exits])
        sub = self.closed_subst(closed, havoc)
        j = fresh('e')
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i),
                                              z3.Not(sub(z3.substitute(ec, (i, j)), j)))))

    def changed(self, pre, post):
        for o, st in post:
            if id(o) not in pre:
                continue
            o0, st0 = pre[id(o)]
            if isinstance(o, (Frame, Obj, PyDict)):
                for k in set(st) | set(st0):
                    a, b = st.get(k, None), st0.get(k, None)
                    if k not in st0:
                        yield (o, k), None
                    elif k not in st or not same_value(a, b):
                        yield (o, k), b
            elif isinstance(o, Buffer):
                if st is not st0:
                    yield (o, None), st0
            elif isinstance(o, PyList):
                if len(st) != len(st0) or any(isinstance(a, Seg) != isinstance(b, Seg) or isinstance(a, Seg) and a is not b for a, b in zip(st, st0)):
                    yield (o, None), st0
                elif any(not isinstance(a, Seg) and not same_value(a, b) for a, b in zip(st, st0)):
                    yield (o, None), st0
                elif False and any(not same_value(a, b) for a, b in zip(st, st0)):
                    yield (o, None), st0

    def make_havoc(self, key, base):
        o, k = key
        cur = None
        for oo, st in base:
            if oo is o:
                cur = st
                break
        if isinstance(o, Buffer):
            srt = {'float': R, 'int': I, 'bool': B}.get(o.dtype)
            if srt is None:
                raise Unsupported('loop writes an array of objects')
            f = fresh_fun('buf', *([I] * o.ndim + [srt]))
            return ('buf', f, cur)
        if isinstance(o, PyList):
            return ('list', Marker(), None)
        if k not in cur:
            return ('temp', None, None)
        v = cur[k]
        if isinstance(v, (str, SymStr)):
            return ('text', SymStr(('start', 'text!%d' % next(self.counter))), v)
        if isinstance(v, bool) or is_z3(v) and z3.is_bool(v):
            return ('scalar', fresh('hb', B), v)
        if isinstance(v, int) or is_z3(v) and v.sort() == I:
            return ('scalar', fresh('h_' + str(k)), v)
        if isinstance(v, float) or is_z3(v) and v.sort() == R:
            return ('scalar', fresh('h_' + str(k), R), v)
        return ('temp', None, v)

    def install(self, key, h):
        o, k = key
        if h[0] == 'buf':
            f = h[1]
            o.read = lambda *b: f(*[num(x) for x in b])
        elif h[0] == 'scalar':
            self.cell_set(o, k, h[1])
        elif h[0] == 'temp':
            self.cell_set(o, k, Poison('value of %s at loop start' % (k,)))
        elif h[0] == 'list':
            o.raw = [h[1]]
        elif h[0] == 'text':
            self.cell_set(o, k, h[1])

    @staticmethod
    def cell_set(o, k, v):
        if isinstance(o, Frame):
            o.vars[k] = v
        elif isinstance(o, Obj):
            o.attrs[k] = v
        elif isinstance(o, PyDict):
            o.items[k] = v
        else:
            raise Unsupported('loop-modified cell')

    def post_expr(self, key, h, pn):
        o, k = key
        vals = []
        for c, p in pn:
            st = None
            for oo, s in p.post:
                if oo is o:
                    st = s
            vals.append((c, st))
        if h[0] == 'buf':
            bs = [fresh('b') for _ in range(o.ndim)]
            e = None
            for c, st in reversed(vals):
                x = num(st(*bs)) if o.dtype != 'bool' else boolean(st(*bs))
                if o.dtype == 'float':
                    x = real(x)
                e = x if e is None else ite(c, x, e)
            return (bs, e)
        if h[0] == 'list':
            # the body appends (what it appends has to be the same number of elements on every path where it is asked for)
            for c, st in vals:
                if not st or st[0] is not h[1]:
                    raise Unsupported('list modified in a symbolic loop other than by appending')
            return vals
        if h[0] == 'text':
            # the body appends to the text
            for c, st in vals:
                x = st.get(k)
                if not isinstance(x, SymStr) or x.parts[:1] != h[1].parts or any(y == h[1].parts[0] for y in x.parts[1:]):
                    return None
            return vals
        if h[0] == 'scalar':
            e = None
            for c, st in reversed(vals):
                x = st.get(k)
                if not (is_z3(x) or isinstance(x, (bool, int, float))):
                    return None
                if h[1].sort() == B:
                    x = boolean(x)
                elif h[1].sort() == R:
                    x = real(x)
                else:
                    x = num(x)
                e = x if e is None else ite(c, x, e)
            return e
        return None

    def solve(self, havoc, exprs, i, n, base, where):
        """closed forms: key -> function(k) giving a term (scalars) or a closure (buffers); None when unsolved"""
        closed = {}
        pending = [k for k in havoc]
        scal = {k: h[1] for k, h in havoc.items() if h[0] == 'scalar'}
        bufs = {k: h[1] for k, h in havoc.items() if h[0] == 'buf'}
        progress = True
        while pending and progress:
            progress = False
            for key in list(pending):
                h = havoc[key]
                if h[0] == 'temp':
                    closed[key] = None
                    pending.remove(key)
                    progress = True
                    continue
                e = exprs[key]
                if h[0] in ('list', 'text'):
                    closed[key] = None
                    pending.remove(key)
                    progress = True
                    continue
                if e is None:
                    closed[key] = None
                    pending.remove(key)
                    progress = True
                    continue
                bs, ex = (e if h[0] == 'buf' else ([], e))
                # substitute the closed forms found so far
                ex = self.subst_closed(ex, closed, havoc, i)
                me = h[1](*bs) if h[0] == 'buf' else h[1]
                a = fresh('cell', me.sort())
                ex = z3.simplify(ex)
                if h[0] == 'buf':
                    ex = self_reads(ex, h[1], bs)
                ex2 = z3.substitute(ex, (me, a))
                fc = free_consts(ex2)
                own = h[1].name() if h[0] == 'buf' else h[1].decl().name()
                others = {havoc[k][1].name() if havoc[k][0] == 'buf' else havoc[k][1].decl().name()
                          for k in pending if k != key and havoc[k][0] in ('buf', 'scalar')}
                if own in fc:
                    closed[key] = None
                    pending.remove(key)
                    progress = True
                    continue
                if fc & others:
                    continue
                sol = solve_rec(ex2, a, i, n, self)
                pending.remove(key)
                progress = True
                if sol is None:
                    closed[key] = None
                    continue
                if h[0] == 'scalar':
                    v0 = h[2]
                    closed[key] = (lambda k, sol=sol, v0=v0: sol(v0, k))
                else:
                    rd0 = next(st for oo, st in base if oo is key[0])

                    def mk(sol=sol, bs=bs, rd0=rd0):
                        def at(k):
                            def read(*b):
                                g = sol(rd0(*b), k)
                                return z3.substitute(num(g) if not z3.is_bool(num_or_bool(g)) else g,
                                                     *[(x, num(y)) for x, y in zip(bs, b)]) if is_z3(g) else g
                            return read
                        return at
                    closed[key] = mk()
        for key in pending:
            closed[key] = None
        return closed

    def subst_closed(self, e, closed, havoc, i):
        for key, c in closed.items():
            if c is None:
                continue
            h = havoc[key]
            if h[0] == 'scalar':
                e = z3.substitute(e, (h[1], coerce(c(i), h[1].sort())))
            elif h[0] == 'buf':
                nd = key[0].ndim
                vs = [z3.Var(nd - 1 - d, I) for d in range(nd)]
                # build the body with constants, then abstract
                cs = [fresh('bb') for _ in range(nd)]
                body = coerce(c(i)(*cs), h[1].range())
                body = z3.substitute(body, *[(x, z3.Var(d, I)) for d, x in enumerate(cs)])
                e = z3.substitute_funs(e, (h[1], body))
        return e

    def closed_subst(self, closed, havoc):
        def sub(e, k):
            for key, c in closed.items():
                h = havoc[key]
                if h[0] not in ('scalar', 'buf'):
                    continue
                nm = h[1].decl().name() if h[0] == 'scalar' else h[1].name()
                if nm not in free_consts(e):
                    continue
                if c is None:
                    raise Unsupported('loop exit depends on unsolved state %s' % (key[1],))
                if h[0] == 'scalar':
                    e = z3.substitute(e, (h[1], coerce(c(k), h[1].sort())))
                else:
                    nd = key[0].ndim
                    cs = [fresh('bb') for _ in range(nd)]
                    body = coerce(c(k)(*cs), h[1].range())
                    body = z3.substitute(body, *[(x, z3.Var(d, I)) for d, x in enumerate(cs)])
                    e = z3.substitute_funs(e, (h[1], body))
            return e
        return sub

    def install_closed(self, key, h, closed, k):
        o, kk = key
        c = closed.get(key)
        if h[0] == 'buf':
            if c is None:
                why = 'array contents after a loop without closed form'

                def rd(*b):
                    raise Unsupported(why)
                o.read = rd
            else:
                o.read = c(k)
        elif h[0] == 'scalar':
            self.cell_set(o, kk, Poison('no closed form for %s' % kk) if c is None else c(k))
        else:
            self.cell_set(o, kk, Poison('value of %s after loop' % (kk,)))

    def parallel_ok(self, key, h, e, i, n, where):
        bs, ex = e
        me = h[1](*bs)
        w = z3.simplify(ex != me)
        i2 = fresh('i')
        hy = z3.And(i >= 0, i < n, i2 >= 0, i2 < n, i != i2)
        # iterations of a parallel loop write disjoint cells: cell bs is changed by at most one iteration
        t = written(ex, me)
        self.oblige('parallel iterations write disjoint cells', z3.ForAll([i, i2] + bs, z3.Implies(
            z3.And(hy, t), z3.Not(z3.substitute(t, (i, i2))))), where)

    def x_While(self, s, fr, mod):
        where = '%s:%d' % (mod.name, s.lineno)
        q = getattr(fr, 'qual', '')
        h = self.overrides.get('while:' + q)
        for _ in range(70):
            c = self.truth(self.eval(s.test, fr, mod))
            c = conc(z3.simplify(c)) if is_z3(c) else c
            if isinstance(c, bool):
                if not c:
                    return
                try:
                    self.exec_block(s.body, fr, mod)
                except BreakSig:
                    return
                except ContinueSig:
                    pass
                continue
            break
        else:
            raise Unsupported('while loop does not end after 70 concrete iterations')
        # counting loop: while v < n: ...; v += 1
        cnt = counting_while(self, s, fr, mod)
        if cnt is not None:
            v, n_expr, body = cnt
            v0 = num(fr.vars[v])
            n = num(n_expr())
            m = z3.If(n - v0 >= 0, n - v0, z3.IntVal(0))

            def one(i):
                fr.vars[v] = v0 + i
                self.exec_block(body, fr, mod)
            self.loop(z3.simplify(m), one, fr, where)
            fr.vars[v] = z3.simplify(v0 + m)
            return
        self.while_invariant(s, fr, mod, where)

    def while_invariant(self, s, fr, mod, where):
        """sidecar loop contract: ctx.loop_contracts maps the enclosing function to a handler"""
        q = getattr(fr, 'qual', '')
        h = self.loop_contracts.get(q)
        if h is None:
            raise Unsupported('while loop without contract at ' + where)
        h(self, s, fr, mod, where)

    def invariant_loop(self, s, fr, mod, where, inv, variant=None, name='loop'):
        """while loop cut by an invariant.  inv(entry) is called in the current state and returns the formulas of the invariant;
        `entry` maps the cells modified by the loop to their values before it (names for local variables).  variant(entry) is
        an integer that decreases and stays >= 0"""
        test = lambda: self.branch(self.truth(self.eval(s.test, fr, mod)))
        rec, self.record = self.record, False
        base, base_pc = self.snapshot(), len(self.pc)
        havoc = {}
        try:
            for _ in range(10):
                self.restore(base)
                del self.pc[base_pc:]
                for key, h in havoc.items():
                    self.install(key, h)
                pre = {id(o): (o, st) for o, st in self.snapshot()}

                def body():
                    if test():
                        self.exec_block(s.body, fr, mod)
                paths = self.explore(body)
                new = False
                for p in paths:
                    for key, was in self.changed(pre, p.post):
                        if key not in havoc:
                            havoc[key] = self.make_havoc(key, base)
                            new = True
                if not new:
                    break
            else:
                raise Unsupported('loop state does not stabilise')
        finally:
            self.record = rec
            self.restore(base)
            del self.pc[base_pc:]
        entry = {}
        for (o, k), h in havoc.items():
            if o is fr:
                entry[k] = h[2]
        for n_, f in enumerate(inv(entry)):
            self.oblige('%s: invariant %d holds on entry' % (name, n_), f, where)
            self.assume(f)
        for key, h in havoc.items():
            # one symbol per loop entry
            if h[0] == 'scalar':
                h = ('scalar', fresh('w_' + str(key[1]), h[1].sort()), h[2])
            elif h[0] == 'buf':
                f = h[1]
                h = ('buf', fresh_fun('wbuf', *([I] * f.arity() + [f.range()])), h[2])
            self.install(key, h)
        for f in inv(entry):
            self.assume(f)
        v0 = variant(entry) if variant is not None else None
        if not test():
            return
        if variant is not None:
            self.oblige('%s: variant is not negative' % name, v0 >= 0, where)
        try:
            self.exec_block(s.body, fr, mod)
        except BreakSig:
            return
        except ContinueSig:
            pass
        for n_, f in enumerate(inv(entry)):
            self.oblige('%s: invariant %d is preserved' % (name, n_), f, where)
        if variant is not None:
            self.oblige('%s: variant decreases' % name, variant(entry) < v0, where)
        raise Infeasible()

    # -- expressions ---------------------------------------------------------------------------------------------------------
    def lookup(self, name, fr, mod):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            f = f.parent
        try:
            return mod.get(name)
        except KeyError:
            pass
        if name in self.np.BUILTINS:
            return Builtin(name, self.np.BUILTINS[name])
        if name in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[name]
        if name in ('int', 'float', 'bool', 'str', 'object', 'dict', 'list', 'tuple', 'set'):
            return Extern(name)
        if name.endswith('Error') or name in ('Exception', 'StopIteration'):
            return Extern(name)
        raise PyExc('NameError', name)

    def eval(self, e, fr, mod):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr, mod)

    def e_Constant(self, e, fr, mod):
        return e.value

    def e_Name(self, e, fr, mod):
        return self.lookup(e.id, fr, mod)

    def e_Tuple(self, e, fr, mod):
        return tuple(self.eval(x, fr, mod) for x in e.elts)

    def e_List(self, e, fr, mod):
        return PyList(self, [self.eval(x, fr, mod) for x in e.elts])

    def e_Dict(self, e, fr, mod):
        return PyDict(self, {self.eval(k, fr, mod): self.eval(v, fr, mod) for k, v in zip(e.keys, e.values)})

    def e_JoinedStr(self, e, fr, mod):
        ps = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                ps.append(SymStr(v.value))
            else:
                x = self.eval(v.value, fr, mod)
                if v.format_spec is not None:
                    f = ast.unparse(v.format_spec)[2:-1]
                    ps.append(SymStr(format(x, f)) if isinstance(x, (str, int, float)) else SymStr(('fmt' + f, x)) if is_z3(x) else None)
                else:
                    ps.append(text(x))
        if any(p is None for p in ps):
            return OpaqueStr('fstring')
        return SymStr(*ps)

    def e_Lambda(self, e, fr, mod):
        fn = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(value=e.body)], decorator_list=[])
        return FuncVal(fn, mod, None, fr, '<lambda>')

    def e_IfExp(self, e, fr, mod):
        c = self.truth(self.eval(e.test, fr, mod))
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, fr, mod)
        cs = z3.simplify(c)
        if z3.is_true(cs) or z3.is_false(cs):
            return self.eval(e.body if z3.is_true(cs) else e.orelse, fr, mod)
        return self.eval(e.body if self.branch(c) else e.orelse, fr, mod)

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str)):
            return bool(v)
        if is_z3(v):
            return boolean(v)
        if isinstance(v, PyList) and v.symbolic:
            if any(not isinstance(x, Seg) for x in v.raw):
                return True
            return boolean(list_len(v.raw) != 0)
        if isinstance(v, PyList) or isinstance(v, PyDict):
            return bool(v.items)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, SymStr):
            rep = [p for p in v.parts if not isinstance(p, str) and p[0] == 'rep']
            return z3.Or(*[num(p[2]) > 0 for p in rep if p[1]]) if rep and len(rep) == len(v.parts) else bool(v.parts)
        if isinstance(v, Seq):
            return boolean(num(v.n) != 0)
        if isinstance(v, Arr):
            if v.ndim == 0:
                return boolean(v.get())
            raise Unsupported('truth value of an array')
        if isinstance(v, (Obj, Abstract, ClassVal, FuncVal, Extern, Builtin)):
            return True
        raise Unsupported('truth of %s' % type(v).__name__)

    def e_BoolOp(self, e, fr, mod):
        is_and = isinstance(e.op, ast.And)
        acc = None
        for k, x in enumerate(e.values):
            v = self.eval(x, fr, mod)
            last = k == len(e.values) - 1
            t = self.truth(v)
            t = conc(t)
            if isinstance(t, bool):
                if t != is_and:
                    return v if acc is None else (False if is_and else True) if not is_z3(acc) else z3.BoolVal(not is_and)
                if last:
                    return v if acc is None else acc
                continue
            # symbolic: evaluate the rest only under the condition
            if last:
                return t if acc is None else (z3.And(acc, t) if is_and else z3.Or(acc, t))
            if self.branch(t) != is_and:
                return not is_and
            # the condition held (and) / failed (or): go on with the others
        return acc if acc is not None else v

    def e_UnaryOp(self, e, fr, mod):
        v = self.eval(e.operand, fr, mod)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(v, Arr):
            return self.np.unary(self, e.op, v)
        if isinstance(e.op, ast.USub):
            return -v if not is_z3(v) else -num(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if is_z3(v) and z3.is_bool(v):
                return z3.Not(v)
        raise Unsupported('unary operator')

    def e_BinOp(self, e, fr, mod):
        return self.binop(e.op, self.eval(e.left, fr, mod), self.eval(e.right, fr, mod))

    def binop(self, op, a, b):
        if isinstance(a, (Poison,)) or isinstance(b, Poison):
            raise Unsupported((a if isinstance(a, Poison) else b).why)
        for x, y, right in ((a, b, False), (b, a, True)):
            if isinstance(x, Abstract) and 'binop' in x.methods:
                return x.methods['binop'](self, x, type(op).__name__, y, right)
        if isinstance(a, Arr) and a.ndim == 0:
            a = a.get()
        if isinstance(b, Arr) and b.ndim == 0:
            b = b.get()
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.np.elementwise(self, op, a, b)
        if isinstance(a, (str, OpaqueStr)) or isinstance(b, (str, OpaqueStr)):
            if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
                return a + b
            if isinstance(a, str) and isinstance(op, ast.Mult) and isinstance(b, int):
                return a * b
            if isinstance(op, ast.Mult) and (isinstance(a, str) and is_z3(b) or isinstance(b, str) and is_z3(a)):
                return SymStr(('rep', a, b) if isinstance(a, str) else ('rep', b, a))
            if isinstance(op, ast.Mod) and isinstance(a, str) and (isinstance(b, (str, int)) or isinstance(b, tuple) and all(isinstance(x, (str, int)) for x in b)):
                return a % b
            if isinstance(op, ast.Mod) and isinstance(a, str):
                r = percent(a, b if isinstance(b, tuple) else (b,))
                return OpaqueStr('string operation') if r is None else r
            if isinstance(op, ast.Add) and isinstance(a, (str, OpaqueStr)) and isinstance(b, (str, OpaqueStr)):
                ta, tb = text(a), text(b)
                if ta is not None and tb is not None:
                    return SymStr(ta, tb)
            elif isinstance(op, ast.Add):
                raise PyExc('TypeError')
            return OpaqueStr('string operation')
        if isinstance(a, PyList) and isinstance(b, (PyList, Seq)) and isinstance(op, ast.Add) or isinstance(b, PyList) and isinstance(a, Seq) and isinstance(op, ast.Add):
            return PyList(self, self.segments(a) + self.segments(b))
        if isinstance(a, Seq) or isinstance(b, Seq):
            if isinstance(op, ast.Add):
                return self.np.seq_concat(self, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        return self.np.scalar_op(self, op, a, b)

    def e_Compare(self, e, fr, mod):
        left = self.eval(e.left, fr, mod)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr, mod)
            c = self.compare(op, left, right)
            if acc is None:
                acc = c
            elif isinstance(acc, bool) and isinstance(c, bool):
                acc = acc and c
            else:
                acc = z3.And(boolean(acc), boolean(c))
            left = right
        return acc

    def compare(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported((a if isinstance(a, Poison) else b).why)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                r = a is None and b is None
                if isinstance(a, Abstract) and 'is_none' in a.methods and b is None:
                    r = a.methods['is_none'](self, a)
                    return r if isinstance(op, ast.Is) else (not r if isinstance(r, bool) else z3.Not(r))
            elif isinstance(a, Extern) and isinstance(b, Extern):
                r = a.path == b.path
            else:
                r = a is b
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else (not r if isinstance(r, bool) else z3.Not(r))
        if isinstance(a, Arr) and a.ndim == 0:
            a = a.get()
        if isinstance(b, Arr) and b.ndim == 0:
            b = b.get()
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None:
                return isinstance(op, ast.NotEq)
            return self.np.elementwise(self, op, a, b)
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            if isinstance(op, ast.NotEq) and (isinstance(a, (OpaqueStr, Abstract)) or isinstance(b, (OpaqueStr, Abstract))):
                r = self.compare(ast.Eq(), a, b)
                return (not r) if isinstance(r, bool) else z3.Not(boolean(r))
            if isinstance(op, ast.Eq):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, SymStr) and isinstance(y, (str, SymStr)) and x.same(y):
                        return True
                    if isinstance(x, SymStr) and isinstance(y, str) and x.parts and (
                            isinstance(x.parts[-1], str) and not y.endswith(x.parts[-1]) or x.parts[-1][0] == 'str' and y[-1:] not in '0123456789+-.einfa' or isinstance(x.parts[0], str) and not y.startswith(x.parts[0])):
                        return False
                if isinstance(a, OpaqueStr) and b is None or isinstance(b, OpaqueStr) and a is None:
                    return False
                if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
                    raise Unsupported('comparison of opaque strings')
                if isinstance(a, Abstract) and 'eq_str' in a.methods:
                    return a.methods['eq_str'](self, a, b)
                return type(a) == type(b) and a == b
            if isinstance(op, ast.NotEq):
                return not (type(a) == type(b) and a == b)
            raise PyExc('TypeError')
        if isinstance(a, Obj) or isinstance(b, Obj):
            o = a if isinstance(a, Obj) else b
            f, c = o.cls.lookup('__eq__')
            if f is not None and isinstance(op, (ast.Eq, ast.NotEq)):
                if isinstance(op, ast.NotEq):
                    g, c2 = o.cls.lookup('__ne__')
                    if g is not None:
                        return self.call(BoundMethod(g, a), [b], {})
                r = self.truth(self.call(BoundMethod(f, a), [b], {}))
                return r if isinstance(op, ast.Eq) else (not r if isinstance(r, bool) else z3.Not(r))
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, (ast.Eq, ast.NotEq)):
            r = True
            if len(a) != len(b):
                r = False
            elif a:
                r = z3.And(*[boolean(self.compare(ast.Eq(), x, y)) for x, y in zip(a, b)])
            return r if isinstance(op, ast.Eq) else (not r if isinstance(r, bool) else z3.Not(r))
        return self.np.scalar_cmp(self, op, a, b)

    def contains(self, c, x):
        if isinstance(c, Abstract) and 'contains' in c.methods:
            return c.methods['contains'](self, c, x)
        if isinstance(c, PyDict):
            if isinstance(x, (str, int)) or not c.items:
                return x in c.items
            return any(x is k for k in c.items)
        if isinstance(c, (tuple, list)) or isinstance(c, PyList):
            items = c.items if isinstance(c, PyList) else c
            rs = [self.compare(ast.Eq(), x, y) for y in items]
            if all(isinstance(r, bool) for r in rs):
                return any(rs)
            return z3.Or(*[boolean(r) for r in rs])
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        raise Unsupported('membership in %s' % type(c).__name__)

    def e_Attribute(self, e, fr, mod):
        return self.getattr(self.eval(e.value, fr, mod), e.attr)

    def getattr(self, o, attr):
        if isinstance(o, Obj):
            if attr in o.attrs:
                v = o.attrs[attr]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            if attr == '__class__':
                return o.cls
            f, c = o.cls.lookup(attr)
            if f is None:
                raise PyExc('AttributeError', attr)
            if isinstance(f, (FuncVal, Builtin)):
                return f if attr in c.static else BoundMethod(f, o)
            return f
        if isinstance(o, Abstract):
            if attr in o.attrs:
                v = o.attrs[attr]
                return v(self) if callable(v) and not isinstance(v, (Arr, Abstract)) else v
            if attr in o.methods:
                return Builtin(o.name + '.' + attr, lambda ctx, a, k, _m=o.methods[attr]: _m(ctx, o, *a, **k))
            if o.cls is not None:
                f, c = o.cls.lookup(attr)
                if f is not None:
                    if isinstance(f, (FuncVal, Builtin)):
                        return f if attr in c.static else BoundMethod(f, o)
                    return f
            if o.attrs.get('__closed__'):
                raise PyExc('AttributeError', attr)
            raise Unsupported('attribute %s of %s' % (attr, o.name))
        if isinstance(o, SuperVal):
            f, c = o.obj.cls.lookup(attr, after=o.cls)
            if f is None:
                if attr == '__init__':
                    return Builtin('object.__init__', lambda ctx, a, k: None)
                raise PyExc('AttributeError', attr)
            return BoundMethod(f, o.obj)
        if isinstance(o, ClassVal):
            f, c = o.lookup(attr)
            if f is None:
                if attr == '__name__':
                    return o.name
                raise PyExc('AttributeError', attr)
            return f
        if isinstance(o, Module):
            try:
                return o.get(attr)
            except KeyError:
                return self.module(o.name + '.' + attr)
        if isinstance(o, Extern):
            return self.np.extern_attr(self, Extern(o.path + '.' + attr))
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        return self.np.getattr(self, o, attr)

    def e_Subscript(self, e, fr, mod):
        o = self.eval(e.value, fr, mod)
        return self.getitem(o, self.eval_index(e.slice, fr, mod))

    def eval_index(self, s, fr, mod):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.eval(x, fr, mod) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr, mod) for x in s.elts)
        return self.eval(s, fr, mod)

    def getitem(self, o, k):
        if isinstance(o, Arr):
            return self.np.arr_get(self, o, k)
        if isinstance(o, Abstract) and 'getitem' in o.methods:
            return o.methods['getitem'](self, o, k)
        if isinstance(o, SymStr):
            return sym_slice(o, k)
        if isinstance(o, PyDict):
            if isinstance(k, (str, int)):
                if k not in o.items:
                    raise PyExc('KeyError')
                return o.items[k]
            for kk, v in o.items.items():
                if kk is k:
                    return v
            raise Unsupported('dictionary key')
        if isinstance(o, PyList) and o.symbolic:
            k = conc(k)
            if isinstance(k, int) and k < 0 and all(not isinstance(x, Seg) for x in o.raw[k:]) and len(o.raw) >= -k:
                return o.raw[k]
            if isinstance(k, slice):
                raise Unsupported('slice of a list of symbolic length')
            n, el = self.seq_of(o)
            if isinstance(k, int) and k < 0:
                k = n + k
            self.oblige('list index in range', z3.And(num(k) >= -n, num(k) < n))
            if not isinstance(k, int) and not self.entails(num(k) >= 0):
                k = z3.If(num(k) < 0, n + num(k), num(k))
            return el(k)
        items = o.items if isinstance(o, PyList) else o if isinstance(o, (tuple, str)) else None
        if items is not None:
            if isinstance(k, slice):
                if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                    r = items[k]
                    return PyList(self, r) if isinstance(o, PyList) else r
                raise Unsupported('symbolic slice of a list')
            k = conc(k)
            if isinstance(k, int):
                if not -len(items) <= k < len(items):
                    raise PyExc('IndexError')
                return items[k]
            raise Unsupported('symbolic index of a list')
        if isinstance(o, Seq):
            if isinstance(k, slice):
                return self.np.seq_slice(self, o, k)
            k2 = k
            if isinstance(k, int) and k < 0:
                k2 = num(o.n) + k
            self.oblige('sequence index in range', z3.And(num(k2) >= 0, num(k2) < num(o.n)))
            return o.elem(k2)
        raise Unsupported('indexing %s' % type(o).__name__)

    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            return self.np.arr_set(self, o, k, v)
        if isinstance(o, Abstract) and 'setitem' in o.methods:
            return o.methods['setitem'](self, o, k, v)
        if isinstance(o, PyList) and isinstance(conc(k), int):
            o.items = list(o.items)
            o.items[conc(k)] = v
            return
        if isinstance(o, PyDict) and isinstance(k, (str, int)):
            o.items = dict(o.items)
            o.items[k] = v
            return
        raise Unsupported('store into %s' % type(o).__name__)

    def concrete_items(self, v):
        n, elem = self.seq(v)
        n = conc(n)
        if not isinstance(n, int):
            raise Unsupported('symbolic sequence where a concrete one is needed')
        return [elem(i) for i in range(n)]

    def e_ListComp(self, e, fr, mod):
        if len(e.generators) > 1:
            gens = e.generators
            outer = ast.ListComp(elt=ast.ListComp(elt=e.elt, generators=gens[1:]), generators=gens[:1])
            r = self.e_ListComp(outer, fr, mod)
            if isinstance(r, PyList) and all(isinstance(x, PyList) for x in r.items):
                return PyList(self, [y for x in r.items for y in x.items])
            return self.np.flatten_seq(self, r)
        g = e.generators[0]
        n, elem = self.seq(self.eval(g.iter, fr, mod))
        n = conc(n)

        def at(i):
            f2 = Frame(self, fr)
            f2.qual = getattr(fr, 'qual', '')
            self.assign(g.target, elem(i), f2, mod)
            return f2
        if isinstance(n, int) and n <= 64:
            out = []
            for i in range(n):
                f2 = at(i)
                if all(self.branch(self.truth(self.eval(c, f2, mod))) for c in g.ifs):
                    out.append(self.eval(e.elt, f2, mod))
            return PyList(self, out)
        if g.ifs:
            if self.record:
                i0 = fresh('c')
                k0 = len(self.pc)
                self.assume(i0 >= 0, i0 < num(n))
                self.explore(lambda: [self.truth(self.eval(c, at(i0), mod)) for c in g.ifs])
                del self.pc[k0:]

            def keep(i):
                r0, self.record = self.record, False
                try:
                    paths = self.explore(lambda: z3.And(*[boolean(self.truth(self.eval(c, at(i), mod))) for c in g.ifs]))
                finally:
                    self.record = r0
                if len(paths) != 1 or paths[0].kind != 'normal':
                    raise Unsupported('branching condition of a comprehension')
                return paths[0].val
            sel = self.np.selection(self, self.np.mk(self, (num(n),), lambda i: keep(num(i)), 'bool'))
            first, n = elem, sel.count

            def elem(i):
                return first(sel.pos(num(i)))

        def el(i):
            paths = self.explore(lambda: self.eval(e.elt, at(i), mod))
            if any(p.kind != 'normal' for p in paths):
                raise Unsupported('comprehension element may raise')
            v = paths[-1].val
            for p in reversed(paths[:-1]):
                if not is_z3(p.val) and not isinstance(p.val, (int, float, bool)):
                    raise Unsupported('branching comprehension')
                v = ite(z3.And(*p.pc), p.val, v)
            return v
        # obligations of the element at an arbitrary index
        if self.record:
            i = fresh('c')
            k = len(self.pc)
            self.assume(i >= 0, i < num(n))
            self.explore(lambda: self.eval(e.elt, at(i), mod))
            del self.pc[k:]
        rec = self.record

        def quiet(i):
            r0, self.record = self.record, False
            try:
                return el(i)
            finally:
                self.record = r0
        return Seq(n, quiet, 'list')

    e_GeneratorExp = e_ListComp

    # -- calls -------------------------------------------------------------------------------------------------------------
    def e_Call(self, e, fr, mod):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in fr.vars:
            if e.args:
                c = self.eval(e.args[0], fr, mod)
                o = self.eval(e.args[1], fr, mod)
            else:
                f = fr
                c, o = fr.cls, next(iter(fr.vars.values()))
            return SuperVal(c, o)
        f = self.eval(e.func, fr, mod)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.concrete_items(self.eval(a.value, fr, mod))
            else:
                args.append(self.eval(a, fr, mod))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr, mod)
                if not isinstance(d, PyDict):
                    raise Unsupported('** argument')
                kw.update(d.items)
            else:
                kw[k.arg] = self.eval(k.value, fr, mod)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, Builtin):
            self.calls.append(f.name)
            return f.fn(self, args, kw)
        if isinstance(f, ClassVal):
            q = '%s.%s' % (f.module.name, f.name)
            if q in self.overrides:
                return self.overrides[q](self, args, kw)
            o = Obj(self, f)
            init, c = f.lookup('__init__')
            if init is not None:
                self.call(BoundMethod(init, o), args, kw)
            return o
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, Extern):
            return self.np.call_extern(self, f.path, args, kw)
        if isinstance(f, Abstract) and 'call' in f.methods:
            return f.methods['call'](self, f, *args, **kw)
        if isinstance(f, Obj):
            m, c = f.cls.lookup('__call__')
            if m is not None:
                return self.call(BoundMethod(m, f), args, kw)
        raise Unsupported('call of %s' % type(f).__name__)

    def call_func(self, f, args, kw):
        if self.depth > 25:
            raise Unsupported('recursion without contract: ' + f.qual)
        self.executed[f.qual] = (f.module.path, getattr(f.node, 'lineno', 0), getattr(f.node, 'end_lineno', 0))
        a = f.node.args
        fr = Frame(self, f.frame)
        fr.qual, fr.cls = f.qual, f.cls
        fr.ctypes = getattr(f.node, 'ctypes', {})
        names = [x.arg for x in a.args]
        if len(args) > len(names):
            if a.vararg is None:
                raise PyExc('TypeError')
            fr.vars[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            fr.vars[a.vararg.arg] = ()
        rest = None
        if a.kwarg is not None:
            rest = fr.vars[a.kwarg.arg] = PyDict(self)
        for n_, v in zip(names, args):
            fr.vars[n_] = v
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in fr.vars:
                    raise PyExc('TypeError')
                fr.vars[k] = v
            elif rest is not None:
                rest.items = dict(rest.items, **{k: v})
            else:
                raise PyExc('TypeError')
        defs = a.defaults
        dfr = f.frame or Frame(self)
        for n_, d in zip(names[len(names) - len(defs):], defs):
            if n_ not in fr.vars:
                fr.vars[n_] = self.eval(d, dfr, f.module)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in fr.vars and d is not None:
                fr.vars[x.arg] = self.eval(d, dfr, f.module)
        for n_ in names:
            if n_ not in fr.vars:
                raise PyExc('TypeError')
        for n_, ty in fr.ctypes.items():
            if n_ in fr.vars:
                self.assign(ast.Name(id=n_), fr.vars[n_], fr, f.module)
        if any(has_yield(s) for s in f.node.body):
            return GenVal(f, fr)
        self.depth += 1
        nowrap, self.nowrap = self.nowrap, f.module.path.endswith('.pyx')
        try:
            self.exec_block(f.node.body, fr, f.module)
        except ReturnSig as r:
            return r.v
        finally:
            self.depth -= 1
            self.nowrap = nowrap
        return None

    e_Yield = None

    def e_Yield(self, e, fr, mod):
        raise Unsupported('yield expression')


# ---------------------------------------------------------------------------------------------------------------------------
def num_or_bool(x):
    return x if is_z3(x) else num(x)


def coerce(x, sort):
    if sort == B:
        return boolean(x)
    x = num(x)
    if sort == R:
        return real(x)
    return x


def coerce_ok(x, sort):
    if not (is_z3(x) or isinstance(x, (bool, int, float))):
        return False
    if sort == B:
        return isinstance(x, bool) or is_z3(x) and z3.is_bool(x)
    if is_z3(x) and z3.is_bool(x) or isinstance(x, bool):
        return False
    return sort == R or isinstance(x, int) or is_z3(x) and x.sort() == I


def Flag(b, names):
    """a string that is one of two: names[0] when b holds"""
    def eq(ctx, o, x):
        if x == names[0]:
            return b
        if x == names[1]:
            return z3.Not(b)
        return False
    return Abstract('flag', {}, dict(eq_str=lambda ctx, a, x: eq(ctx, a, x if isinstance(x, str) else a)), key=('flag', b, names))


def flag_of(x, names=None):
    if isinstance(x, Abstract) and x.key and x.key[0] == 'flag':
        return x.key[1], x.key[2]
    if isinstance(x, str) and names and x in names:
        return z3.BoolVal(x == names[0]), names
    if isinstance(x, str):
        return z3.BoolVal(False), None
    raise Unsupported('list element')


def conc(v):
    """z3 numerals and truth values -> python"""
    if is_z3(v):
        s = z3.simplify(v)
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
    return v


def has_yield(s):
    for x in ast.walk(s):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def carries_state(loop):
    """does the loop read a variable that an earlier iteration assigned?  (conservative: aug-assignments, or a name
    that is read before it is assigned in the body)"""
    assigned = set()
    for s in loop.body:
        for x in ast.walk(s):
            if isinstance(x, ast.AugAssign):
                return True
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                assigned.add(x.id)
    seen = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
    for s in loop.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in assigned and x.id not in seen:
                st = {y.id for y in ast.walk(s) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                if x.id not in st or isinstance(s, ast.Assign):
                    return True
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                seen.add(x.id)
    return False


def same_value(a, b):
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if is_z3(a) or is_z3(b):
        return False
    if isinstance(a, (int, float, str, bool, type(None))) and isinstance(b, (int, float, str, bool, type(None))):
        return type(a) == type(b) and a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.buf is b.buf and len(a.shape) == len(b.shape) and \
            all(same(x, y) for x, y in zip(a.shape, b.shape)) and str(a.dims) == str(b.dims)
    if isinstance(a, Extern) and isinstance(b, Extern):
        return a.path == b.path
    if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
        return a.func is b.func and a.self_ is b.self_
    return False


def leaves(e, cond=None):
    """if-then-else tree -> [(path condition list, leaf)]"""
    out = []

    def go(x, cs):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            go(x.arg(1), cs + [x.arg(0)])
            go(x.arg(2), cs + [z3.Not(x.arg(0))])
        else:
            out.append((cs, x))
    go(e, [])
    return out


def self_reads(e, f, bs):
    """in the branches in which the cell bs is known to be (t1, ..): f(t1, ..) is f(bs)"""
    me = f(*bs)

    def apps(x, out, seen):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(f) and not x.eq(me):
                out.append(x)
            for c in x.children():
                apps(c, out, seen)
        elif z3.is_quantifier(x):
            apps(x.body(), out, seen)

    def equal(cs, b, t):
        for c in cs:
            for q in literals(c):
                if z3.is_eq(q) and (q.arg(0).eq(b) and q.arg(1).eq(t) or q.arg(1).eq(b) and q.arg(0).eq(t)):
                    return True
        return b.eq(t)

    def go(x, cs):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(x.arg(0), go(x.arg(1), cs + [x.arg(0)]), go(x.arg(2), cs + [z3.Not(x.arg(0))]))
        out = []
        apps(x, out, set())
        sub = [(o, me) for o in out if all(equal(cs, b, o.arg(k)) for k, b in enumerate(bs))]
        return z3.substitute(x, *sub) if sub else x
    return go(e, [])


def written(e, me):
    """condition under which the cell's term e differs syntactically from its old value `me`"""
    cs = [z3.And(*c) if c else z3.BoolVal(True) for c, l in leaves(e) if not l.eq(me)]
    return z3.Or(*cs) if cs else z3.BoolVal(False)


def solve_rec(e, a, i, n, ctx=None):
    """e = value after iteration i of a cell whose value before it is a. -> f(v0, k) = value before iteration k"""
    if not occurs(a, e):
        # overwritten in every iteration
        def f(v0, k):
            k = num(k)
            last = z3.substitute(e, (i, k - 1))
            return ite(k > 0, last, v0)
        return f
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith('UPD') and e.num_args() == 2 \
            and e.arg(0).eq(a) and not occurs(a, e.arg(1)) and e.arg(1).sort() == I and a.sort() == I:
        # an abstract accumulator: the sequence of the values fed to it determines its state
        x, fold = e.arg(1), opaque('FOLD' + e.decl().name(), AII, I, I, I)
        return lambda v0, k: fold(lam(lambda j: z3.substitute(x, (i, num(j)))), num(k), num(v0))
    ls = leaves(e)
    kinds = []
    for cs, l in ls:
        if any(occurs(a, c) for c in cs):
            return solve_max(e, a, i) or solve_least(e, a, i, n, ctx)
        if l.eq(a):
            kinds.append(('id', None))
            continue
        if not occurs(a, l):
            kinds.append(('set', l))
            continue
        if a.sort() == B:
            return solve_bool(e, a, i)
        d = z3.simplify(l - a)
        if not occurs(a, d):
            kinds.append(('add', d))
            continue
        if a.sort() == R:
            x = z3.simplify(z3.substitute(l, (a, z3.RealVal(1))))
            if z3.is_true(z3.simplify(l == a * x, som=True)) or z3.is_true(z3.simplify(l - a * x == 0, som=True)):
                kinds.append(('mul', x))
                continue
            y = z3.simplify(z3.substitute(l, (a, z3.RealVal(2))))
        return None
    ks = {k for k, _ in kinds}

    def cond(cs, want):
        sel = [z3.And(*c) if c else z3.BoolVal(True) for (c, _), (k, _) in zip(ls, kinds) if k == want]
        return z3.Or(*sel) if len(sel) > 1 else sel[0]

    def by_leaf(default, pick):
        r = default
        for (c, _), (k, v) in reversed(list(zip(ls, kinds))):
            if k == pick:
                r = z3.If(z3.And(*c) if c else z3.BoolVal(True), v, r)
        return r
    if ks <= {'id', 'add'}:
        zero = z3.RealVal(0) if a.sort() == R else z3.IntVal(0)
        delta = z3.simplify(by_leaf(zero, 'add'))
        if not occurs(i, delta):
            # the number k of iterations is never negative
            return lambda v0, k: add0(coerce(v0, a.sort()), z3.simplify((to_real(num(k)) if a.sort() == R else num(k)) * delta))

        def f(v0, k):
            return add0(coerce(v0, a.sort()), guarded_sum(lambda j: z3.substitute(delta, (i, num(j))), num(k)))
        return f
    if ks <= {'id', 'mul'}:
        fac = z3.simplify(by_leaf(z3.RealVal(1), 'mul'))
        return lambda v0, k: real(v0) * mk_prod(lambda j: z3.substitute(fac, (i, num(j))), num(k)) \
            if not same(v0, 1) else mk_prod(lambda j: z3.substitute(fac, (i, num(j))), num(k))
    if ks <= {'id', 'set'}:
        c = cond(ls, 'set')
        val = None
        for (cs, _), (k, v) in reversed(list(zip(ls, kinds))):
            if k == 'set':
                val = v if val is None else z3.If(z3.And(*cs) if cs else z3.BoolVal(True), v, val)

        def f(v0, k):
            w = solve_last(lambda j: z3.substitute(c, (i, num(j))), num(k))
            if isinstance(w, tuple):
                inr, w = w
                return ite(inr, z3.substitute(val, (i, w)), v0)
            return ite(w >= 0, z3.substitute(val, (i, w)), v0)
        return f
    return None


def add0(v0, s):
    if not is_z3(v0):
        v0 = num(v0)
    if z3.is_rational_value(v0) and v0.as_fraction() == 0 or z3.is_int_value(v0) and v0.as_long() == 0:
        return s
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE and is_zero(s.arg(2)):
        return z3.If(s.arg(0), v0 + s.arg(1), v0)
    return v0 + s


def is_zero(x):
    return z3.is_rational_value(x) and x.as_fraction() == 0 or z3.is_int_value(x) and x.as_long() == 0


def solve_bool(e, a, i):
    """flag := flag or c(i) / flag and c(i)"""
    t = z3.simplify(z3.substitute(e, (a, z3.BoolVal(True))))
    f0 = z3.simplify(z3.substitute(e, (a, z3.BoolVal(False))))
    if z3.is_true(t):
        return lambda v0, k: z3.Or(boolean(v0), EXISTS(lam(lambda j: z3.substitute(f0, (i, j))), num(k)))
    if z3.is_false(f0):
        return lambda v0, k: z3.And(boolean(v0), z3.Not(EXISTS(lam(lambda j: z3.Not(z3.substitute(t, (i, j)))), num(k))))
    return None


def solve_max(e, a, i):
    """v := max(v, x(i)) or min, in any of the forms if a < x: a = x"""
    ls = leaves(e)
    if len(ls) != 2:
        return None
    vals = [l for _, l in ls if not occurs(a, l)]
    if len(vals) != 1 or a.sort() == B:
        return None
    x = vals[0]
    s = z3.Solver()
    s.set('timeout', 1000)
    s.add(e != z3.If(a >= x, a, x))
    if s.check() == z3.unsat:
        def f(v0, k):
            m = mk_max(lambda j: z3.substitute(x, (i, num(j))), num(k))
            v = coerce(v0, a.sort())
            return z3.If(num(k) > 0, z3.If(v >= m, v, m), v)
        return f
    s = z3.Solver()
    s.set('timeout', 1000)
    s.add(e != z3.If(a <= x, a, x))
    if s.check() == z3.unsat:
        def f(v0, k):
            m = mk_min(lambda j: z3.substitute(x, (i, num(j))), num(k))
            v = coerce(v0, a.sort())
            return z3.If(num(k) > 0, z3.If(v <= m, v, m), v)
        return f
    return None


def solve_least(e, a, i, n, ctx):
    """v := the least (greatest) of v and x(i), undefined before the first number; every x(i) is a number"""
    if ctx is None or a.sort() != R:
        return None
    vals = {}
    for _, l in leaves(e):
        if not occurs(a, l):
            vals[l.get_id()] = l
    if len(vals) != 1:
        return None
    x = list(vals.values())[0]
    n0 = len(ctx.pc)
    try:
        ctx.assume(i >= 0, i < n)
        if not ctx.np.defined(ctx, x):
            return None
    finally:
        del ctx.pc[n0:]
    y = fresh('x', R)
    e = z3.substitute(e, (x, y))
    for better, red in ((lambda u, w: u <= w, mk_min), (lambda u, w: u >= w, mk_max)):
        s = z3.Solver()
        s.set('timeout', 1000)
        s.add(e != z3.If(a == NAN, y, z3.If(better(a, y), a, y)), y != NAN)
        if s.check() == z3.unsat:
            def f(v0, k):
                k = num(k)
                m = red(lambda j: z3.substitute(x, (i, num(j))), k)
                v = coerce(v0, a.sort())
                r = m if v.eq(NAN) else z3.If(v == NAN, m, z3.If(better(v, m), v, m))
                return r if ctx.entails(k > 0) else z3.If(k > 0, r, v)
            return f
    return None


def linear_root(c, j):
    """if c implies j == t with t free of j (an equality conjunct linear in j with coefficient +-1) -> t"""
    ts = linear_roots(c, j)
    return ts[0] if ts else None


def linear_roots(c, j):
    if z3.is_or(c):
        out = None
        for x in c.children():
            ts = linear_roots(x, j)
            out = ts if out is None else [t for t in out if any(t.eq(u) for u in ts)]
            if not out:
                return []
        return out
    if z3.is_and(c):
        out = []
        for x in c.children():
            out += linear_roots(x, j)
        return out
    if z3.is_eq(c) and c.arg(0).sort() == I:
        d = c.arg(0) - c.arg(1)
        if not occurs(j, d):
            return []
        d0 = z3.simplify(z3.substitute(d, (j, z3.IntVal(0))))
        d1 = z3.simplify(z3.substitute(d, (j, z3.IntVal(1))))
        co = z3.simplify(d1 - d0)
        if z3.is_int_value(co) and abs(co.as_long()) == 1:
            if z3.is_true(z3.simplify(d == d0 + co * j, som=True)):
                return [z3.simplify(-d0 if co.as_long() == 1 else d0)]
    return []


def solve_last(c, n):
    """last index j < n with c(j): a pair (exists, j) when c pins j down, else a LAST term"""
    j = fresh('j')
    cj = z3.simplify(c(j))
    t = linear_root(cj, j)
    if t is not None:
        return z3.simplify(z3.And(t >= 0, t < n, z3.substitute(cj, (j, t)))), t
    return mk_last(c, n)


def solve_first(c, n):
    j = fresh('j')
    cj = z3.simplify(c(j))
    t = linear_root(cj, j)
    if t is not None:
        return z3.If(z3.And(t >= 0, t < n, z3.substitute(cj, (j, t))), t, n)
    return mk_first(c, n)


def literals(c):
    """conjuncts of a condition"""
    if z3.is_and(c):
        return [q for x in c.children() for q in literals(x)]
    if z3.is_not(c):
        x = c.arg(0)
        if z3.is_not(x):
            return literals(x.arg(0))
        if z3.is_or(x):
            return [q for y in x.children() for q in literals(z3.Not(y))]
        if z3.is_and(x):
            return common_literals([z3.Not(y) for y in x.children()]) + [c]
    if z3.is_or(c):
        return common_literals(c.children()) + [c]
    return [] if z3.is_true(c) else [c]


def common_literals(cs):
    """conjuncts of all the disjuncts"""
    sets = [{q.get_id(): q for q in literals(c)} for c in cs]
    return [q for k, q in sets[0].items() if all(k in s for s in sets[1:])]


def guarded_sum(f, n):
    """sum of f over [0,n); collapses when f(j) is zero but for one j"""
    j = fresh('j')
    b = z3.simplify(f(j))
    ls = leaves(b)
    nz = [(c, l) for c, l in ls if not (z3.is_rational_value(l) and l.as_fraction() == 0 or z3.is_int_value(l) and l.as_long() == 0)]
    if nz and all(c for c, _ in nz):
        zero = z3.RealVal(0) if b.sort() == R else z3.IntVal(0)
        lits = [{q.get_id(): q for q in literals(z3.And(*c))} for c, _ in nz]
        common = [q for k, q in lits[0].items() if all(k in l for l in lits[1:])]
        out = [q for q in common if not occurs(j, q)]
        if out:        # conditions that do not depend on the index leave the sum
            sub = [(q.arg(0), z3.BoolVal(False)) if z3.is_not(q) else (q, z3.BoolVal(True)) for q in out]
            b2 = z3.simplify(z3.substitute(b, *sub))
            return z3.If(z3.And(*out), guarded_sum(lambda q: z3.substitute(b2, (j, num(q))), n), zero)
        t = linear_root(z3.simplify(z3.And(*common)) if len(nz) > 1 else z3.simplify(z3.And(*nz[0][0])), j)
        if t is not None:
            if len(nz) == 1:
                c = z3.simplify(z3.And(*nz[0][0]))
                return z3.If(z3.And(t >= 0, t < n, z3.substitute(c, (j, t))), z3.substitute(nz[0][1], (j, t)), zero)
            return z3.If(z3.And(t >= 0, t < n), z3.substitute(b, (j, t)), zero)
    return mk_sum(f, n)


def counting_while(ctx, s, fr, mod):
    """while v < e: body; v += 1 with v not otherwise assigned -> (v, bound thunk, body)"""
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)):
        return None
    v = t.left.id
    if not s.body:
        return None
    inc = s.body[-1]
    ok = isinstance(inc, ast.AugAssign) and isinstance(inc.op, ast.Add) and isinstance(inc.target, ast.Name) and \
        inc.target.id == v and isinstance(inc.value, ast.Constant) and inc.value.value == 1
    if not ok:
        return None
    for x in s.body[:-1]:
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id == v:
                return None
            if isinstance(y, (ast.Continue,)):
                return None
    stores = {y.id for x in s.body for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
    if any(isinstance(y, ast.Name) and y.id in stores for y in ast.walk(t.comparators[0])):
        return None
    if not (is_z3(fr.vars.get(v)) or isinstance(fr.vars.get(v), int)):
        return None
    if isinstance(t.ops[0], ast.Lt):
        return v, (lambda: ctx.eval(t.comparators[0], fr, mod)), s.body[:-1]
    if isinstance(t.ops[0], ast.LtE):
        return v, (lambda: num(ctx.eval(t.comparators[0], fr, mod)) + 1), s.body[:-1]
    return None
