"""Run-time values of the symbolic semantics."""
import z3
from .terms import *


class Unsupported(Exception):
    """the construct is outside the verifier's subset: the obligation is not generated (never a violation)"""


class Poison:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Poison(%s)' % self.why


class NoneBox:
    pass


class Buffer:
    """storage of an array: read(idx...) -> term; writes replace the closure"""

    def __init__(self, ctx, ndim, read, dtype, name=None, shape=None):
        self.ndim, self.read, self.dtype, self.name, self.shape = ndim, read, dtype, name, shape
        ctx.heap.append(self)
        self.init_len = None

    def state(self):
        return self.read

    def set_state(self, s):
        self.read = s


class Arr:
    """numpy array (or memoryview, C array): a view of a buffer.
    dims: for each buffer dimension ('fix', e) or ('ax', viewdim, start, step)"""

    def __init__(self, buf, shape, dims=None):
        self.buf, self.shape = buf, tuple(shape)
        self.dims = dims if dims is not None else [('ax', d, 0, 1) for d in range(buf.ndim)]

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def ndim(self):
        return len(self.shape)

    def bidx(self, idx):
        out = []
        for d in self.dims:
            if d[0] == 'fix':
                out.append(num(d[1]))
            else:
                _, vd, st, step = d
                i = num(idx[vd])
                if step == -1:
                    out.append(num(st) - i)
                elif step == 1:
                    out.append(i if (isinstance(st, int) and st == 0) else num(st) + i)
                else:
                    out.append(num(st) + num(step) * i)
        return out

    def get(self, *idx):
        return self.buf.read(*self.bidx(idx))

    def frozen(self):
        """closure reading the current contents (copy semantics)"""
        rd, me = self.buf.read, self
        return lambda *idx: rd(*me.bidx(idx))

    def write(self, cond_val):
        """cond_val(idx...) -> (cond, value): cells of this view for which cond holds get value"""
        old = self.buf.read
        dims, shape = self.dims, self.shape

        def read(*b):
            conds, idx = [], [None] * len(shape)
            for bd, d in zip(b, dims):
                if d[0] == 'fix':
                    conds.append(num(bd) == num(d[1]))
                else:
                    _, vd, st, step = d
                    if step == 1:
                        i = num(bd) - num(st) if not (isinstance(st, int) and st == 0) else num(bd)
                    elif step == -1:
                        i = num(st) - num(bd)
                    else:
                        raise Unsupported('write through a strided view')
                    conds += [i >= 0, i < num(shape[vd])] if not full_range(self, vd, st, step) else []
                    idx[vd] = i
            for k, x in enumerate(idx):
                if x is None:
                    idx[k] = z3.IntVal(0)
            c, v = cond_val(*idx)
            conds.append(boolean(c))
            return ite(z3.And(*conds) if conds else True, v, old(*b))
        self.buf.read = read


def full_range(a, vd, st, step):
    """the axis covers the whole buffer axis (so that the range test is redundant for in-bounds cells)"""
    if not (isinstance(st, int) and st == 0 and step == 1) or a.buf.shape is None:
        return False
    for bd, d in enumerate(a.dims):
        if d[0] == 'ax' and d[1] == vd:
            return same(a.buf.shape[bd], a.shape[vd])
    return False


class Obj:
    def __init__(self, ctx, cls, attrs=None):
        self.cls, self.attrs = cls, dict(attrs or {})
        ctx.heap.append(self)

    def state(self):
        return dict(self.attrs)

    def set_state(self, s):
        self.attrs = dict(s)


class Abstract:
    """an object known only through a contract: attrs (name -> value or function) and methods (name -> handler)"""

    def __init__(self, name, attrs=None, methods=None, cls=None, key=None):
        self.name, self.attrs, self.methods, self.cls, self.key = name, attrs or {}, methods or {}, cls, key


class Seg:
    """part of a list of symbolic length: the concatenation of the lists of(i), 0 <= i < n"""

    def __init__(self, n, of):
        self.n, self.of = n, of


class Marker(Seg):
    """contents of a list at the start of an arbitrary iteration"""

    def __init__(self):
        Seg.__init__(self, None, None)


def list_len(items):
    """length of the concatenation"""
    r, c = z3.IntVal(0), 0
    for x in items:
        if isinstance(x, Marker):
            raise Unsupported('length of a list in a symbolic loop')
        if isinstance(x, Seg):
            b = x.of(z3.Int('any!'))
            if any(isinstance(y, Seg) for y in b):
                raise Unsupported('length of a list of nested segments')
            r = r + num(x.n) * len(b)
        else:
            c += 1
    return z3.simplify(r + c)


class PyList:
    def __init__(self, ctx, items):
        self.raw = list(items)
        ctx.heap.append(self)

    @property
    def items(self):
        if any(isinstance(x, Seg) for x in self.raw):
            raise Unsupported('list of symbolic length where a concrete one is needed')
        return self.raw

    @items.setter
    def items(self, v):
        self.raw = list(v)

    @property
    def symbolic(self):
        return any(isinstance(x, Seg) for x in self.raw)

    def state(self):
        return list(self.raw)

    def set_state(self, s):
        self.raw = list(s)


class PyDict:
    def __init__(self, ctx, items=None):
        self.items = dict(items or {})
        ctx.heap.append(self)

    def state(self):
        return dict(self.items)

    def set_state(self, s):
        self.items = dict(s)


class Frame:
    def __init__(self, ctx, parent=None, vars=None):
        self.vars, self.parent = dict(vars or {}), parent
        ctx.heap.append(self)

    def state(self):
        return dict(self.vars)

    def set_state(self, s):
        self.vars = dict(s)


class Seq:
    """immutable sequence of symbolic length"""

    def __init__(self, n, elem, kind='seq'):
        self.n, self.elem, self.kind = n, elem, kind


class GenVal:
    def __init__(self, func, frame):
        self.func, self.frame = func, frame


class FuncVal:
    def __init__(self, node, module, cls=None, frame=None, qual=''):
        self.node, self.module, self.cls, self.frame, self.qual = node, module, cls, frame, qual


class BoundMethod:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class ClassVal:
    def __init__(self, name, bases, module, node):
        self.name, self.bases, self.module, self.node = name, bases, module, node
        self.members = {}
        self.static = set()
        self.klass = set()

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.members:
                return c.members[name], c
        return None, None


class SuperVal:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Extern:
    """dotted external name, e.g. numpy.argsort"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Extern(%s)' % self.path


class OpaqueStr:
    def __init__(self, desc=''):
        self.desc = desc


class SymStr(OpaqueStr):
    """string given by its parts: literal text, or atoms (tuples) that stand for arbitrary non-empty text"""

    def __init__(self, *parts):
        out = []
        for p in parts:
            for x in (p.parts if isinstance(p, SymStr) else (p,)):
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                elif x != '':
                    out.append(x)
        self.parts = tuple(out)
        self.desc = repr(self)

    def __repr__(self):
        return 'S' + repr(self.parts)

    def same(self, o):
        """structural equality: True, or None when it is not known"""
        ps = o.parts if isinstance(o, SymStr) else (o,)
        if len(ps) != len(self.parts):
            return None
        for a, b in zip(self.parts, ps):
            if isinstance(a, str) or isinstance(b, str):
                if a != b:
                    return None
            elif not (len(a) == len(b) and all((x.eq(y) if is_z3(x) and is_z3(y) else not is_z3(x) and not is_z3(y) and x == y) for x, y in zip(a, b))):
                return None
        return True


INT_SAMPLES = ('0', '7', '12', '345', '60021')
SIGNED_SAMPLES = ('-1', '0', '-12', '7', '31', '-3456')
FLOAT_SAMPLES = ('0.5', '-1.25', '3', '1e-05', '-2.5e+10', '0', '12.000000000000002', '-0.0078', '1.0000000180025095e-35')


class Tok(OpaqueStr):
    """a word of a text file that is the number `term` printed (kind: int, signed, float) or a plain word; contains no separator"""

    def __init__(self, kind, term=None, samples=None):
        self.kind, self.term = kind, term
        self.samples = samples or dict(int=INT_SAMPLES, signed=SIGNED_SAMPLES, float=FLOAT_SAMPLES)[kind]
        self.desc = 'token'

    def inst(self, s):
        return self.samples[s % len(self.samples)]


class Toks(OpaqueStr):
    """n >= 1 words separated by single spaces: f(i) -> Tok"""

    def __init__(self, n, f):
        self.n, self.f, self.desc = n, f, 'tokens'

    def inst(self, s):
        t = self.f(z3.IntVal(0))
        return ' '.join(t.inst(s + 3 * j) for j in range(1 + s % 4))


class Line(OpaqueStr):
    """text made of pieces: literal text, Tok, Toks"""
    INSTANCES = 15

    def __init__(self, *pieces):
        out = []
        for p in pieces:
            for x in (p.pieces if isinstance(p, Line) else (p,)):
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                elif x != '':
                    out.append(x)
        self.pieces, self.desc = tuple(out), 'line'

    def inst(self, s):
        """instance number s -> (text, start of every piece)"""
        r, pos = '', []
        for k, p in enumerate(self.pieces):
            pos.append(len(r))
            r += p if isinstance(p, str) else p.inst(s * (k + 2) + k)
        return r, pos + [len(r)]

    def position(self, pos, at, end=False):
        """(piece, offset) of the position of an instance where something starts (or ends), None inside a number"""
        n = len(self.pieces)
        hits = [k for k in range(n + 1) if pos[k] == at]
        if hits:
            return (hits[0] if end else hits[-1], 0)
        for k, p in enumerate(self.pieces):
            if pos[k] < at < pos[k + 1]:
                return (k, at - pos[k]) if isinstance(p, str) else None

    def part(self, a, b):
        out = []
        for k in range(a[0], min(b[0] + 1, len(self.pieces))):
            p = self.pieces[k]
            if isinstance(p, str):
                out.append(p[a[1] if k == a[0] else 0:b[1] if k == b[0] else None])
            elif k < b[0]:
                out.append(p)
        return whole(Line(*out))

    def each(self, f):
        """the common result of f(text, locate) on the instances of the line"""
        got = []
        for s in range(self.INSTANCES):
            t, pos = self.inst(s)
            r = f(t, lambda at, end=False, pos=pos: self.position(pos, at, end))
            if got and r != got[0]:
                raise Unsupported('text: the result depends on the numbers printed')
            got.append(r)
        return got[0]


def whole(l):
    """a line that is literal text or a single piece is that piece"""
    if not l.pieces:
        return ''
    return l.pieces[0] if len(l.pieces) == 1 else l


def as_line(x):
    if isinstance(x, Line):
        return x
    if isinstance(x, (str, Tok, Toks)):
        return Line(x)
    raise Unsupported('unknown text')


def text(x):
    """a value as part of a string (str())"""
    if isinstance(x, SymStr):
        return x
    if isinstance(x, OpaqueStr):
        return None
    if isinstance(x, str):
        return SymStr(x)
    if isinstance(x, bool) or x is None:
        return SymStr(str(x))
    if isinstance(x, int):
        return SymStr(str(x))
    if is_z3(x):
        return SymStr(('str', x))
    return None


def percent(fmt, args):
    """fmt % args -> SymStr or None"""
    import re
    out, k = [], 0
    for m in re.finditer(r'%(?:%|([-#0 +]*\d*(?:\.\d+)?[sdrfgeix]))|[^%]+', fmt):
        if m.group(0) == '%%':
            out.append('%')
        elif m.group(1) is None:
            out.append(m.group(0))
        else:
            if k >= len(args):
                raise PyExc('TypeError')
            a, spec = args[k], m.group(1)
            k += 1
            if not is_z3(a) and not isinstance(a, OpaqueStr):
                try:
                    out.append(('%' + spec) % (a,))
                except TypeError:
                    raise PyExc('TypeError')
            elif spec == 'd' and is_z3(a) and a.sort() == R:
                out.append(('fmtd', a))
            elif spec in ('s', 'd') or spec == 'r' and is_z3(a):
                t = text(a)
                if t is None:
                    return None
                out.append(t)
            elif is_z3(a):
                out.append(('fmt' + spec, a))
            else:
                return None
    if k != len(args):
        raise PyExc('TypeError')
    return SymStr(*out)


class PyExc(Exception):
    def __init__(self, cls, val=None):
        self.cls, self.val = cls, val


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Infeasible(Exception):
    pass
