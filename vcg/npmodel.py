"""Assumed contracts of the Python builtins and of the numpy/scipy functions used by the repository (trusted base)."""
import ast
import builtins
import z3
from .terms import *
from .values import *

NAN = z3.Real('NaN')
INF = z3.Real('Inf')
Lt, LtE, Gt, GtE, Eq, NotEq = ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq
SORT = {'float': R, 'int': I, 'bool': B}


# -- construction ------------------------------------------------------------------------------------------------------
def mk(ctx, shape, fn, dtype):
    return Arr(Buffer(ctx, len(shape), fn, dtype, shape=tuple(shape)), shape)


def sym_array(ctx, name, shape, dtype):
    f = z3.Function(name, *([I] * len(shape) + [SORT[dtype]]))
    return mk(ctx, shape, lambda *i: f(*[num(x) for x in i]), dtype)


def dtype_of(v):
    if isinstance(v, Arr):
        return v.dtype
    if isinstance(v, bool) or is_z3(v) and z3.is_bool(v):
        return 'bool'
    if isinstance(v, int) or is_z3(v) and v.sort() == I:
        return 'int'
    if isinstance(v, float) or is_z3(v) and v.sort() == R:
        return 'float'
    return 'obj'


def parse_dtype(d, default='float'):
    if d is None:
        return default
    if isinstance(d, Extern):
        n = d.path.split('.')[-1]
        if n.startswith(('float', 'double')) or n in ('f4', 'f8'):
            return 'float'
        if n.startswith(('int', 'uint', 'short', 'long')):
            return 'int'
        if n.startswith('bool'):
            return 'bool'
        if n.startswith('object'):
            return 'obj'
    if isinstance(d, str):
        return {'f': 'float', 'i': 'int', 'u': 'int', 'b': 'bool', 'O': 'obj'}.get(d.lstrip('<>=')[0], 'obj')
    raise Unsupported('dtype %r' % (d,))


def cast(v, dtype):
    if isinstance(v, (Tok, Toks, Line)) and dtype in ('int', 'float'):
        return parsed(v, dtype)
    if dtype == 'float':
        return real(v)
    if dtype == 'int':
        v = num(v)
        if v.sort() == R:
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
                return v.arg(0)
            return trunc(v)
        return v
    if dtype == 'bool':
        return boolean(v)
    return v


def trunc(v):
    """conversion of a real to an integer (towards zero)"""
    v = z3.simplify(v) if is_z3(v) else v
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
        return v.arg(0)
    if z3.is_rational_value(v):
        fr = v.as_fraction()
        return z3.IntVal(int(fr))
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


def floor_int(v):
    """floor of a real as an integer term"""
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
        return v.arg(0)
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DIV:
        a, b = v.arg(0), v.arg(1)
        if all(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL for x in (a, b)):
            return a.arg(0) / b.arg(0)       # integer division: floor for a positive divisor
    return z3.ToInt(v)


def to_arr(ctx, v, dtype=None):
    if isinstance(v, Arr):
        return v
    if isinstance(v, PyList) and v.symbolic:
        v = Seq(*ctx.seq_of(v))
    if isinstance(v, (PyList, tuple)):
        items = v.items if isinstance(v, PyList) else list(v)
        if items and all(isinstance(x, (PyList, tuple)) for x in items):
            rows = [x.items if isinstance(x, PyList) else list(x) for x in items]
            dt = dtype or join_dtype([dtype_of(y) for r in rows for y in r])
            w = len(rows[0])

            def rd2(i, j):
                e = None
                for a in range(len(rows)):
                    for b in range(w):
                        x = cast(rows[a][b], dt)
                        e = x if e is None else ite(z3.And(num(i) == a, num(j) == b), x, e)
                return e
            return mk(ctx, (len(rows), w), rd2, dt)
        if items and all(isinstance(x, Arr) for x in items):
            n = items[0].shape[0]
            dt = dtype or join_dtype([x.dtype for x in items])

            def rd3(i, *j):
                e = None
                for a, x in enumerate(items):
                    y = cast(x.get(*j), dt)
                    e = y if e is None else ite(num(i) == a, y, e)
                return e
            return mk(ctx, (len(items),) + tuple(items[0].shape), rd3, dt)
        dt = dtype or join_dtype([dtype_of(x) for x in items] or ['float'])
        if dt == 'obj':
            raise Unsupported('array of objects')

        def rd(i):
            i = num(i)
            s = z3.simplify(i)
            if z3.is_int_value(s) and 0 <= s.as_long() < len(items):
                return cast(items[s.as_long()], dt)
            e = cast(items[0], dt) if items else cast(0, dt)
            for a in range(1, len(items)):
                e = ite(i == a, cast(items[a], dt), e)
            return e
        return mk(ctx, (len(items),), rd, dt)
    if isinstance(v, Seq):
        j = fresh('p')
        x = v.elem(j)
        if isinstance(x, Arr):
            dt = dtype or x.dtype
            return mk(ctx, (v.n,) + x.shape, lambda i, *r: cast(v.elem(i).get(*r), dt), dt)
        dt = dtype or dtype_of(x)
        if dt == 'obj':
            raise Unsupported('array of objects')
        return mk(ctx, (v.n,), lambda i: cast(v.elem(i), dt), dt)
    if isinstance(v, (int, float, bool)) or is_z3(v):
        dt = dtype or dtype_of(v)
        return mk(ctx, (), lambda: cast(v, dt), dt)
    raise Unsupported('array of %s' % type(v).__name__)


def join_dtype(ds):
    order = ['bool', 'int', 'float', 'obj']
    return order[max(order.index(d) for d in ds)]


def eq_dim(ctx, a, b):
    return same(a, b) or ctx.entails(num(a) == num(b))


def minus1(n):
    return n - 1 if isinstance(n, int) else z3.simplify(num(n) - 1)


# -- scalars -------------------------------------------------------------------------------------------------------------
def pynum(x):
    return isinstance(x, (int, float)) and not is_z3(x)


def scalar_op(ctx, op, a, b):
    for x in (a, b):
        if x is None:
            raise PyExc('TypeError')
        if not (pynum(x) or is_z3(x)):
            raise Unsupported('arithmetic on %s' % type(x).__name__)
    if pynum(a) and pynum(b):
        try:
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                    ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b,
                    ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.LShift: lambda: a << b,
                    ast.RShift: lambda: a >> b, ast.BitXor: lambda: a ^ b}[type(op)]()
        except ZeroDivisionError:
            raise PyExc('ZeroDivisionError')
        except KeyError:
            raise Unsupported('operator')
    ba, bb = is_z3(a) and z3.is_bool(a) or isinstance(a, bool), is_z3(b) and z3.is_bool(b) or isinstance(b, bool)
    if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and ba and bb:
        a, b = boolean(a), boolean(b)
        return {ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[type(op)](a, b)
    x, y = num(a), num(b)
    mixed = x.sort() != y.sort()
    if isinstance(op, ast.Pow):
        return power(ctx, a, b)
    if isinstance(op, ast.BitAnd) and x.sort() == I and y.sort() == I:
        if z3.is_int_value(x):
            x, y = y, x
        if z3.is_int_value(y) and y.as_long() > 0:
            m = y.as_long()
            lo = (m & -m).bit_length() - 1
            w = (m >> lo).bit_length()
            if m == ((1 << w) - 1) << lo:        # a run of w bits (arithmetic on two's complement integers)
                return (x / (1 << lo)) % (1 << w) * (1 << lo)
        raise Unsupported('bitwise operator')
    if isinstance(op, ast.RShift) and x.sort() == I and z3.is_int_value(y):
        return x / (1 << y.as_long())
    if isinstance(op, ast.LShift) and z3.is_int_value(y) and x.sort() == I:
        return x * (1 << y.as_long())
    if isinstance(op, ast.LShift):
        if z3.is_int_value(x) and x.as_long() == 1:
            return opaque('SHL1', I, I)(y)
        raise Unsupported('shift')
    if isinstance(op, ast.Div):
        return real(x) / real(y)
    if isinstance(op, (ast.FloorDiv, ast.Mod)):
        if x.sort() == I and y.sort() == I:
            if not ctx.entails(y > 0):
                raise Unsupported('integer division by a possibly non-positive number')
            return x / y if isinstance(op, ast.FloorDiv) else x % y
        if isinstance(op, ast.FloorDiv):
            return real(z3.ToInt(real(x) / real(y)))
        raise Unsupported('mod on reals')
    if mixed:
        x, y = real(x), real(y)
    if isinstance(op, ast.Add):
        return x + y
    if isinstance(op, ast.Sub):
        return x - y
    if isinstance(op, ast.Mult):
        return x * y
    raise Unsupported('operator %s' % type(op).__name__)


def power(ctx, a, b):
    if pynum(b) and b == 2:
        return num(a) * num(a)
    if pynum(b) and b == 1:
        return num(a)
    if pynum(b) and b == 0.5:
        return SQRT(real(a))
    if pynum(a) and a == 2:
        return EXP2(real(b))
    bn = num(b)
    if bn.sort() == R:
        bs = z3.simplify(bn)
        if z3.is_app(bs) and bs.decl().kind() == z3.Z3_OP_TO_REAL:
            bn = bs.arg(0)
        else:
            raise Unsupported('power with a real exponent')
    return POW(real(a), bn)


CMP = {Lt: lambda a, b: a < b, LtE: lambda a, b: a <= b, Gt: lambda a, b: a > b, GtE: lambda a, b: a >= b,
       Eq: lambda a, b: a == b, NotEq: lambda a, b: a != b}


def scalar_cmp(ctx, op, a, b):
    if isinstance(a, Abstract) and isinstance(op, (Eq, NotEq)) and 'eq' in a.methods:
        r = a.methods['eq'](ctx, a, b)
        return r if isinstance(op, Eq) else (not r if isinstance(r, bool) else z3.Not(r))
    for x in (a, b):
        if not (pynum(x) or is_z3(x)):
            if isinstance(op, (Eq, NotEq)) and (a is b):
                return isinstance(op, Eq)
            if isinstance(a, Extern) and isinstance(b, Extern) and isinstance(op, (Eq, NotEq)):
                return (a.path == b.path) == isinstance(op, Eq)
            raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))
    if pynum(a) and pynum(b):
        return CMP[type(op)](a, b)
    ba, bb = is_z3(a) and z3.is_bool(a), is_z3(b) and z3.is_bool(b)
    if (ba or isinstance(a, bool)) and (bb or isinstance(b, bool)):
        x, y = boolean(a), boolean(b)
        if isinstance(op, Eq):
            return x == y
        if isinstance(op, NotEq):
            return x != y
    x, y = num(a), num(b)
    if x.sort() != y.sort():
        x, y = real(x), real(y)
    return CMP[type(op)](x, y)


def c_convert(ctx, v, ty):
    if ty == 'float':
        return real(v) if is_z3(v) else float(v)
    if ty == 'int':
        if is_z3(v) and v.sort() == R:
            return trunc(v)
        if is_z3(v) and z3.is_bool(v):
            return num(v)
        if isinstance(v, float):
            return int(v)
        return v
    if ty == 'bool':
        return boolean(v) if is_z3(v) else bool(v)
    return v


# -- elementwise ---------------------------------------------------------------------------------------------------------
def broadcast(ctx, arrs):
    """-> shape, list of element functions"""
    nd = max(a.ndim for a in arrs)
    shape = [1] * nd
    for a in arrs:
        for d in range(a.ndim):
            k = nd - a.ndim + d
            s = a.shape[d]
            if isinstance(s, int) and s == 1:
                continue
            if isinstance(shape[k], int) and shape[k] == 1:
                shape[k] = s
            elif not same(shape[k], s):
                ctx.oblige('operand shapes agree', num(shape[k]) == num(s))

    def elem(a):
        rd = a.frozen()

        def f(*idx):
            ix = []
            for d in range(a.ndim):
                s = a.shape[d]
                ix.append(0 if isinstance(s, int) and s == 1 and not (isinstance(shape[nd - a.ndim + d], int) and shape[nd - a.ndim + d] == 1)
                          else idx[nd - a.ndim + d])
            return rd(*ix)
        return f
    return shape, [elem(a) for a in arrs]


def elementwise(ctx, op, a, b):
    if isinstance(a, (PyList, Seq, tuple)) or isinstance(b, (PyList, Seq, tuple)) or True:
        a, b = to_arr(ctx, a), to_arr(ctx, b)
    shape, (fa, fb) = broadcast(ctx, [a, b])
    if type(op) in CMP:
        return mk(ctx, shape, lambda *i: scalar_cmp(ctx, op, fa(*i), fb(*i)), 'bool')
    if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and a.dtype == b.dtype == 'bool':
        return mk(ctx, shape, lambda *i: scalar_op(ctx, op, boolean(fa(*i)), boolean(fb(*i))), 'bool')
    dt = join_dtype([a.dtype, b.dtype])
    if isinstance(op, ast.Div):
        dt = 'float'
    elif isinstance(op, ast.Pow) and dt != 'float':
        dt = 'int'
    elif dt == 'bool':
        dt = 'int'
    if isinstance(op, ast.Mod) or isinstance(op, ast.FloorDiv):
        # decide positivity of the divisor once
        js = [fresh('p') for _ in shape]
        d = fb(*js)
        if not ctx.entails(num(d) > 0):
            raise Unsupported('elementwise division by a possibly non-positive number')
        if dt != 'int':
            raise Unsupported('elementwise floor division of reals')
        return mk(ctx, shape, (lambda *i: num(fa(*i)) % num(fb(*i))) if isinstance(op, ast.Mod) else
                  (lambda *i: num(fa(*i)) / num(fb(*i))), dt)
    if isinstance(op, ast.Div) and ctx.ghost.get('division by zero'):
        inf = opaque('DIV0', R, R)
        div = lambda x, y: z3.simplify(z3.If(y == 0, z3.If(x == 0, NAN, inf(x)), x / y))
        return mk(ctx, shape, lambda *i: div(real(fa(*i)), real(fb(*i))), 'float')
    return mk(ctx, shape, lambda *i: cast(scalar_op(ctx, op, num(fa(*i)), num(fb(*i)) if not const_exp(b, op) else const_exp(b, op)), dt), dt)


def const_exp(b, op):
    if isinstance(op, ast.Pow) and b.ndim == 0:
        v = z3.simplify(num(b.get()))
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            f = v.as_fraction()
            return int(f) if f.denominator == 1 else float(f)
    return None


def unary(ctx, op, v):
    rd = v.frozen()
    if isinstance(op, ast.USub):
        return mk(ctx, v.shape, lambda *i: -num(rd(*i)), v.dtype)
    if isinstance(op, ast.Invert) and v.dtype == 'bool':
        return mk(ctx, v.shape, lambda *i: z3.Not(boolean(rd(*i))), 'bool')
    raise Unsupported('unary operator on array')


def inplace(ctx, arr, op, rhs):
    r = elementwise(ctx, op, arr, rhs)
    if len(r.shape) != arr.ndim:
        raise PyExc('ValueError')
    for x, y in zip(r.shape, arr.shape):
        if not same(x, y):
            ctx.oblige('in-place operand shapes agree', num(x) == num(y))
    if arr.dtype == 'int' and r.dtype == 'float':
        raise PyExc('UFuncTypeError')
    dt = arr.dtype
    arr.write(lambda *i: (True, cast(r.get(*i), dt)))


def umap(ctx, v, f, dtype):
    if isinstance(v, (Arr, PyList, Seq, tuple)):
        v = to_arr(ctx, v)
        if v.ndim == 0:
            return f(v.get())
        rd = v.frozen()
        return mk(ctx, v.shape, lambda *i: f(rd(*i)), dtype or v.dtype)
    return f(v)


# -- indexing ------------------------------------------------------------------------------------------------------------
def is_basic(k):
    ks = k if isinstance(k, tuple) else (k,)
    return all(isinstance(x, (slice, int)) or x is None or x is Ellipsis or is_z3(x) for x in ks)


def norm_index(ctx, k, n, oblige=True):
    """python index (possibly negative) -> 0-based"""
    if isinstance(k, Arr) and k.ndim == 0:
        k = k.get()
    if isinstance(k, bool):
        raise Unsupported('boolean index')
    if isinstance(k, int):
        if k < 0:
            e = k + n if isinstance(n, int) else num(n) + k
            if oblige:
                bound_check(ctx, num(n) >= -k)
            return e
        if isinstance(n, int):
            if k >= n and oblige:
                bound_check(ctx, z3.BoolVal(False))
            return k
        if oblige:
            bound_check(ctx, num(n) > k)
        return k
    if is_z3(k) and ctx.nowrap and k.sort() == I:
        if oblige:
            bound_check(ctx, z3.And(k >= 0, k < num(n)))
        return k
    if not is_z3(k):
        raise Unsupported('index %s' % type(k).__name__)
    if k.sort() == R:
        raise PyExc('IndexError')
    if ctx.entails(k >= 0):
        if oblige:
            bound_check(ctx, k < num(n))
        return k
    if oblige:
        bound_check(ctx, z3.And(k >= -num(n), k < num(n)))
    if ctx.entails(k < 0):
        return k + num(n)
    return z3.If(k < 0, k + num(n), k)


def bound_check(ctx, cond):
    ctx.oblige('index within bounds', cond)


def slice_bounds(ctx, s, n):
    """(lo, len, step)"""
    step = 1 if s.step is None else s.step
    if is_z3(step):
        step = z3.simplify(step)
        if z3.is_int_value(step):
            step = step.as_long()
    if not isinstance(step, int) or step == 0:
        raise Unsupported('symbolic slice step')
    if step == -1:
        if s.start is not None or s.stop is not None:
            raise Unsupported('bounded reversed slice')
        return minus1(n), n, -1

    def clamp(v, default):
        if v is None:
            return default
        if isinstance(v, Arr) and v.ndim == 0:
            v = v.get()
        if isinstance(v, int) and isinstance(n, int):
            return max(0, min(n, v if v >= 0 else v + n))
        if isinstance(v, int) and v == 0:
            return 0
        e = num(v)
        if not isinstance(v, int) or v < 0:
            if isinstance(v, int) or not ctx.entails(e >= 0):
                e = e + num(n) if isinstance(v, int) else z3.If(e < 0, e + num(n), e)
                if not ctx.entails(e >= 0):
                    e = z3.If(e < 0, z3.IntVal(0), e)
        if ctx.entails(e <= num(n)):
            return e
        return z3.If(e <= num(n), e, num(n))
    lo, hi = clamp(s.start, 0), clamp(s.stop, n)
    if step < 1:
        raise Unsupported('slice step')
    if isinstance(lo, int) and isinstance(hi, int):
        ln = max(0, (hi - lo + step - 1) // step)
        return lo, ln, step
    d = num(hi) - num(lo)
    if not ctx.entails(d >= 0):
        d = z3.If(d >= 0, d, z3.IntVal(0))
    if step > 1:
        d = (d + (step - 1)) / step
    return lo, (hi if isinstance(lo, int) and lo == 0 and step == 1 and same(d, hi) else z3.simplify(d)), step


def basic_view(ctx, a, ks):
    """view for ints/slices/None; ks has one entry per axis (None entries add axes)"""
    newshape, vmap, nd = [], {}, 0
    ax = 0
    for k in ks:
        if k is None:
            newshape.append(1)
            continue
        n = a.shape[ax]
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                vmap[ax] = ('ax', len(newshape), 0, 1)
                newshape.append(n)
            else:
                lo, ln, st = slice_bounds(ctx, k, n)
                vmap[ax] = ('ax', len(newshape), lo, st)
                newshape.append(ln)
        else:
            vmap[ax] = ('fix', norm_index(ctx, k, n))
        ax += 1
    while ax < a.ndim:
        vmap[ax] = ('ax', len(newshape), 0, 1)
        newshape.append(a.shape[ax])
        ax += 1
    dims = []
    for d in a.dims:
        if d[0] == 'fix':
            dims.append(d)
            continue
        _, vd, st, step = d
        m = vmap[vd]
        if m[0] == 'fix':
            e = m[1]
            if step == 1:
                e = e if isinstance(st, int) and st == 0 else num(st) + num(e)
            else:
                e = num(st) + num(step) * num(e)
            dims.append(('fix', e))
        else:
            _, nvd, lo, s2 = m
            if isinstance(lo, int) and lo == 0:
                st2 = st
            elif isinstance(st, int) and isinstance(lo, int) and isinstance(step, int):
                st2 = st + step * lo
            elif isinstance(st, int) and st == 0 and step == 1:
                st2 = lo
            else:
                st2 = num(st) + num(step) * num(lo)
            dims.append(('ax', nvd, st2, step * s2))
    return Arr(a.buf, newshape, dims)


def expand_key(a, k):
    ks = list(k) if isinstance(k, tuple) else [k]
    if any(x is Ellipsis for x in ks):
        i = next(j for j, x in enumerate(ks) if x is Ellipsis)
        n = len([x for x in ks if x is not None]) - 1
        ks[i:i + 1] = [slice(None)] * (a.ndim - n)
    while len([x for x in ks if x is not None]) < a.ndim:
        ks.append(slice(None))
    if len([x for x in ks if x is not None]) > a.ndim:
        raise PyExc('IndexError')
    return ks


class Selection:
    pass


def params_of(ctx, terms):
    """index variables the terms depend on (all generated Int constants), in order of occurrence"""
    out, seen, hav = [], set(), False
    st = list(reversed(terms))
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if nm.startswith(('buf!', 'h_', 'hb!', 'cell!')):
                    hav = True
                if x.num_args() == 0 and '!' in nm and x.sort() == I and not nm.startswith('mk!'):
                    out.append(x)
            st.extend(reversed(x.children()))
    if hav:
        for i in ctx.loop_idx:
            if not any(i.eq(x) for x in out):
                out.append(i)
    return out


def skolems(ctx, kind, terms, sigs, axioms):
    """symbols (deterministic functions of `terms`) constrained by closed axioms.
    sigs: list of sort lists (arguments..., result); axioms(funs) -> list of (vars, body, patterns)"""
    terms = [z3.simplify(t) for t in terms]
    ps = params_of(ctx, terms)
    canon = [(p, z3.Int('mk!p%d' % k)) for k, p in enumerate(ps)]
    key = (kind,) + tuple(z3.substitute(t, *canon).sexpr() if canon else t.sexpr() for t in terms)
    cache = ctx.ghost.setdefault('skolems', {})
    new = key not in cache
    if new:
        cache[key] = [fresh_fun(kind, *([I] * len(ps) + list(sig))) for sig in sigs]
    fs = [(lambda *a, f=f: f(*(list(ps) + [num(x) for x in a]))) for f in cache[key]]
    if new:
        for vs, body, pats in axioms(fs):
            qs = list(ps) + list(vs)
            if not qs:
                ctx.axioms.append(body)
            else:
                # a pattern must mention all the variables: the parameters occur in it as arguments of the symbols
                ctx.axioms.append(z3.ForAll(qs, body, patterns=pats) if pats else z3.ForAll(qs, body))
    return fs


def selection(ctx, m):
    """the positions at which the 1-d boolean array m is true, in increasing order (np.nonzero / mask indexing)"""
    n = m.shape[0]
    s = Selection()
    s.n = num(n)
    rd = m.frozen()
    s.mask = lambda j: boolean(rd(j))
    cnt = mk_sum(lambda j: z3.If(s.mask(j), z3.IntVal(1), z3.IntVal(0)), n)
    s.count = cnt
    i, j = fresh('i'), fresh('j')
    j0 = z3.Int('mk!j')

    def axioms(fs):
        pos, rank = fs
        return [([], z3.And(cnt >= 0, z3.Implies(s.n >= 0, cnt <= s.n)), None),
                ([i], z3.Implies(z3.And(i >= 0, i < cnt), z3.And(pos(i) >= 0, pos(i) < s.n, s.mask(pos(i)), rank(pos(i)) == i)), [pos(i)]),
                ([i, j], z3.Implies(z3.And(i >= 0, i < j, j < cnt), pos(i) < pos(j)), [z3.MultiPattern(pos(i), pos(j))]),
                ([j], z3.Implies(z3.And(j >= 0, j < s.n, s.mask(j)), z3.And(rank(j) >= 0, rank(j) < cnt, pos(rank(j)) == j)), [rank(j)])]
    s.pos, s.rank = skolems(ctx, 'sel', [s.mask(j0), s.n], [[I, I], [I, I]], axioms)

    def arr():
        a = mk(ctx, (cnt,), lambda i: s.pos(num(i)), 'int')
        a.buf.selection = (s, a.buf.read)
        return a
    s.arr = arr
    ctx.ghost.setdefault('selections', []).append(s)
    return s


def arr_get(ctx, a, k):
    ks = expand_key(a, k)
    if all(isinstance(x, (slice, int)) or x is None or is_z3(x) or (isinstance(x, Arr) and x.ndim == 0) for x in ks) and \
            not any(is_z3(x) and z3.is_bool(x) for x in ks):
        v = basic_view(ctx, a, ks)
        if v.ndim == 0 and v.dtype == 'obj' and 'cells' in v.buf.__dict__:
            return cell_get(ctx, v)
        return v.get() if v.ndim == 0 else v
    # advanced indexing
    adv = [(d, x) for d, x in enumerate(ks) if isinstance(x, (Arr, PyList, Seq, tuple))]
    if any(x is None for x in ks):
        raise Unsupported('newaxis with advanced indexing')
    if len(adv) == 1:
        d, x = adv[0]
        x = to_arr(ctx, x)
        mask = None
        if x.dtype == 'bool':
            if x.ndim == a.ndim and x.ndim > 1 or x.ndim != 1:
                raise Unsupported('multi-dimensional mask')
            if not same(x.shape[0], a.shape[d]):
                ctx.oblige('mask length agrees', num(x.shape[0]) == num(a.shape[d]))
            mask = selection(ctx, x)
            x = mask.arr()
        elif x.buf.__dict__.get('selection') and x.buf.selection[1] is x.buf.read and same(x.buf.selection[0].n, a.shape[d]) and same(x.shape[0], x.buf.selection[0].count) and x.dims == [('ax', 0, 0, 1)]:
            mask = x.buf.selection[0]
        if x.ndim != 1:
            raise Unsupported('multi-dimensional index array')
        n = a.shape[d]
        ix = x.frozen()
        m = x.shape[0]
        j = fresh('p')
        npc = len(ctx.pc)
        ctx.assume(j >= 0, j < num(m))
        nonneg = mask is not None or ctx.entails(num(ix(j)) >= 0)
        if mask is None:            # the positions where a mask of the length of the axis holds are within bounds
            ctx.oblige('index within bounds', z3.And(num(ix(j)) >= (0 if nonneg else -num(n)), num(ix(j)) < num(n)))
        del ctx.pc[npc:]

        def at(i):
            e = num(ix(i))
            return e if nonneg else z3.If(e < 0, e + num(n), e)
        # other axes may be ints or slices: take the basic view with a full slice at d first
        base = basic_view(ctx, a, [slice(None) if e == d else y for e, y in enumerate(ks)])
        # position of the axis in the base view
        p = len([1 for e, y in enumerate(ks) if e < d and isinstance(y, slice)])
        if any(not isinstance(y, slice) for e, y in enumerate(ks) if e != d) and p != 0:
            raise Unsupported('mixed advanced indexing')
        rd = base.frozen()
        shape = list(base.shape)
        shape[p] = m
        r = mk(ctx, shape, lambda *i: rd(*(list(i[:p]) + [at(i[p])] + list(i[p + 1:]))), a.dtype)
        if mask is not None and p == 0:
            r.buf.masked = (mask, rd, r.buf.read)          # rows of rd where the mask holds
        return r
    if len(adv) == 2 and a.ndim == 2:
        x, y = to_arr(ctx, adv[0][1]), to_arr(ctx, adv[1][1])
        if x.ndim == 1 and y.ndim == 1 and x.dtype == y.dtype == 'int':
            fx, fy, rd = x.frozen(), y.frozen(), a.frozen()
            return mk(ctx, (x.shape[0],), lambda i: rd(fx(i), fy(i)), a.dtype)
    raise Unsupported('advanced indexing')


def arr_set(ctx, a, k, v):
    ks = expand_key(a, k)
    dt = a.dtype
    if all(isinstance(x, (slice, int)) or x is None or is_z3(x) or (isinstance(x, Arr) and x.ndim == 0) for x in ks):
        view = basic_view(ctx, a, ks)
        if dt == 'obj' and 'cells' in a.buf.__dict__ and view.ndim == 0:
            return cell_set(ctx, view, v)
        if isinstance(v, (Arr, PyList, Seq, tuple)):
            src = to_arr(ctx, v)
            shape, (f, _) = broadcast(ctx, [src, Arr(view.buf, view.shape, view.dims)]) if view.ndim else ((), (src.get, None))
            view.write(lambda *i: (True, cast(f(*i), dt)))
        else:
            if v is None:
                raise PyExc('TypeError')
            if isinstance(v, (Tok, Toks, Line)) and dt in ('int', 'float'):
                v = parsed(v, dt)
            if not (is_z3(v) or isinstance(v, (int, float, bool))):
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                if dt == 'obj':
                    raise Unsupported('object array store')
                raise Unsupported('store of %s into an array' % type(v).__name__)
            c = cast(v, dt)
            view.write(lambda *i: (True, c))
        return
    adv = [(d, x) for d, x in enumerate(ks) if isinstance(x, (Arr, PyList, Seq, tuple))]
    if len(adv) == 1 and all(isinstance(y, slice) and y == slice(None) for e, y in enumerate(ks) if e != adv[0][0]):
        d, x = adv[0]
        x = to_arr(ctx, x)
        if x.dtype == 'bool' and x.ndim == 1:
            m = x.frozen()
            if isinstance(v, (int, float, bool)) or is_z3(v):
                c = cast(v, dt)
                a.write(lambda *i: (boolean(m(i[d])), c))
                return
            src = to_arr(ctx, v)
            s = selection(ctx, x)
            rd = src.frozen()
            if src.ndim == 1 and a.ndim == 1:
                ctx.oblige('mask assignment sizes agree', num(src.shape[0]) == s.count)
                a.write(lambda i: (boolean(m(i)), cast(rd(s.rank(i)), dt)))
                return
        if x.dtype == 'int' and x.ndim == 1 and (isinstance(v, (int, float, bool)) or is_z3(v)):
            # scatter of one value: the cells listed
            rd, m = x.frozen(), num(x.shape[0])
            j = fresh('p')
            npc = len(ctx.pc)
            ctx.assume(j >= 0, j < m)
            ctx.oblige('index within bounds', z3.And(num(rd(j)) >= 0, num(rd(j)) < num(a.shape[d])))
            del ctx.pc[npc:]
            inv, c = permutation_inverse(x), cast(v, dt)
            if inv is not None and len(x.dims) == 1 and x.dims[0][3] == 1:
                st = num(x.dims[0][2])
                a.write(lambda *i: (z3.And(inv(num(i[d])) >= st, inv(num(i[d])) < st + m), c))
            else:
                a.write(lambda *i: (EXISTS(lam(lambda j: num(rd(j)) == num(i[d])), m), c))
            return
        if x.dtype == 'int' and x.ndim == 1 and a.ndim == 1:
            # scatter; supported when the index array is injective with a known inverse (a permutation)
            inv = permutation_inverse(x) if full_range(x, 0, x.dims[0][2], x.dims[0][3]) else None
            if inv is not None:
                src = to_arr(ctx, v)
                rd = src.frozen() if src.ndim else (lambda i, c=src.get(): c)
                a.write(lambda i: (True, cast(rd(inv(num(i))), dt)))
                return
    if len(adv) == 1 and a.ndim == 2 and adv[0][0] == 0 and isinstance(ks[1], (int,)) or \
            len(adv) == 1 and a.ndim == 2 and is_z3(ks[1]):
        col = basic_view(ctx, a, [slice(None), ks[1]])
        return arr_set(ctx, col, adv[0][1], v)
    if len(adv) == 1 and a.ndim == 2 and adv[0][0] == 1 and (isinstance(ks[0], int) or is_z3(ks[0])):
        row = basic_view(ctx, a, [ks[0], slice(None)])
        return arr_set(ctx, row, adv[0][1], v)
    raise Unsupported('advanced assignment')


def permutation_inverse(x):
    """the ghost inverse of the permutation held by the buffer of x, unmodified since it was drawn"""
    p = x.buf.__dict__.get('inverse')
    return p[0] if p is not None and p[1] is x.buf.read else None


# -- reductions ----------------------------------------------------------------------------------------------------------
def axis_arg(args, kw, k=0):
    if len(args) > k:
        return args[k]
    return kw.get('axis')


def reduce_arr(ctx, a, axis, one, name):
    """one(f, n) reduces a 1-d element function"""
    rd = a.frozen()
    if axis is None:
        def go(pref, d):
            if d == a.ndim:
                return rd(*pref)
            if d == a.ndim - 1:
                return one(lambda j: rd(*(pref + [j])), a.shape[d])
            return one(lambda j: go(pref + [j], d + 1), a.shape[d])
        if a.ndim == 0:
            return rd()
        return go([], 0)
    if isinstance(axis, int):
        if axis < 0:
            axis += a.ndim
        shape = [s for d, s in enumerate(a.shape) if d != axis]
        if not shape:
            return one(lambda j: rd(j), a.shape[0])

        def f(*i):
            i = list(i)
            return one(lambda j: rd(*(i[:axis] + [j] + i[axis:])), a.shape[axis])
        j = fresh('p')
        dt = dtype_of(f(*[fresh('p') for _ in shape]))
        return mk(ctx, shape, f, dt)
    raise Unsupported('axis')


def summand(x):
    return num(x)


def r_sum(ctx, a, axis=None):
    a = to_arr(ctx, a)
    m = masked(a)
    if m is not None and a.ndim == 1 and axis in (None, 0, -1):
        # the sum of the selected cells is the sum of the cells guarded by the mask
        mask, rd = m
        zero = z3.RealVal(0) if a.dtype == 'float' else z3.IntVal(0)
        return mk_sum(lambda j: z3.If(mask.mask(j), summand(rd(j)), zero), mask.n)
    return reduce_arr(ctx, a, axis, lambda f, n: mk_sum(lambda j: summand(f(j)), n), 'sum')


def masked(a):
    """(mask, rows) when the array is what a boolean mask selected, unmodified since"""
    m = a.buf.__dict__.get('masked')
    if m is None or a.buf.read is not m[2] or not all(d[0] == 'ax' and d[1] == k and isinstance(d[2], int) and d[2] == 0 and d[3] == 1 for k, d in enumerate(a.dims)) or not same(a.shape[0], m[0].count):
        return None
    return m[0], m[1]


def r_mean(ctx, a, axis=None):
    a = to_arr(ctx, a)
    m = masked(a)
    if m is not None and a.ndim == 1 and axis in (None, 0, -1):
        # the mean of an empty selection is undefined
        return z3.If(m[0].count > 0, real(r_sum(ctx, a)) / real(m[0].count), NAN)
    if axis is None:
        tot = r_sum(ctx, a)
        cnt = num(1)
        for s in a.shape:
            cnt = cnt * num(s) if not (z3.is_int_value(cnt) and cnt.as_long() == 1) else num(s)
        return real(tot) / real(cnt)
    return reduce_arr(ctx, a, axis, lambda f, n: real(mk_sum(lambda j: real(f(j)), n)) / real(num(n)), 'mean')


def nonempty(ctx, a):
    for s in a.shape:
        ctx.oblige('reduction of a non-empty array', num(s) > 0)


def r_max(ctx, a, axis=None):
    a = to_arr(ctx, a)
    if a.ndim == 0:
        return a.get()
    nonempty(ctx, a)
    return reduce_arr(ctx, a, axis, lambda f, n: mk_max(f, n), 'max')


def r_min(ctx, a, axis=None):
    a = to_arr(ctx, a)
    if a.ndim == 0:
        return a.get()
    nonempty(ctx, a)
    return reduce_arr(ctx, a, axis, lambda f, n: mk_min(f, n), 'min')


def r_any(ctx, a, axis=None):
    if not isinstance(a, (Arr, PyList, Seq)):
        return ctx.truth(a)
    a = to_arr(ctx, a)
    return reduce_arr(ctx, a, axis, lambda f, n: EXISTS(lam(lambda j: boolean(f(j))), num(n)), 'any')


def r_all(ctx, a, axis=None):
    if not isinstance(a, (Arr, PyList, Seq)):
        return ctx.truth(a)
    a = to_arr(ctx, a)
    return reduce_arr(ctx, a, axis, lambda f, n: z3.Not(EXISTS(lam(lambda j: z3.Not(boolean(f(j)))), num(n))), 'all')


def size_of(a):
    n = 1
    for s in a.shape:
        if isinstance(n, int) and isinstance(s, int):
            n = n * s
        elif isinstance(n, int) and n == 1:
            n = s
        elif isinstance(s, int) and s == 1:
            pass
        else:
            n = num(n) * num(s)
    return n


def argsort(ctx, a, stable=False):
    a = to_arr(ctx, a)
    if a.ndim != 1:
        raise Unsupported('argsort of a matrix')
    n = a.shape[0]
    rd = a.frozen()
    N = num(n)
    i, j = fresh('i'), fresh('j')

    def axioms(fs):
        s, t = fs
        out = [([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(s(i) >= 0, s(i) < N, t(s(i)) == i)), [s(i)]),
               ([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(t(i) >= 0, t(i) < N, s(t(i)) == i)), [t(i)]),
               ([i, j], z3.Implies(z3.And(i >= 0, i < j, j < N), num(rd(s(i))) <= num(rd(s(j)))), [z3.MultiPattern(s(i), s(j))])]
        if stable:
            out.append(([i, j], z3.Implies(z3.And(i >= 0, i < j, j < N, num(rd(s(i))) == num(rd(s(j)))), s(i) < s(j)),
                        [z3.MultiPattern(s(i), s(j))]))
        return out
    s, t = skolems(ctx, 'sigma' + ('_stable' if stable else ''), [num(rd(z3.Int('mk!j'))), N], [[I, I], [I, I]], axioms)
    ctx.perms.append((s, t, N, rd))
    r = mk(ctx, (n,), lambda i: s(num(i)), 'int')
    r.buf.inverse = (t, r.buf.read)
    return r


# -- random numbers: generators are deterministic functions of their seed and of the number of previous draws -----------
def random_state(ctx, key, seed=None):
    m = {'permutation': lambda ctx, o, x: draw_permutation(ctx, o, x), 'shuffle': lambda ctx, o, x: draw_shuffle(ctx, o, x)}
    return Abstract('RandomState', {'__isa__': ('RandomState',)}, {k: f for k, f in m.items()}, key=(key, seed))


def draw(ctx, o, n):
    key, seed = o.key
    ds = ctx.ghost.setdefault('draws', {})
    sk = (key, z3.simplify(num(seed)).sexpr() if seed is not None else '', id(o) if key != 'global' else 0)
    k = ds[sk] = ds.get(sk, 0) + 1
    N = num(n)
    i = fresh('i')

    def axioms(fs):
        s, t = fs
        return [([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(s(i) >= 0, s(i) < N, t(s(i)) == i)), [s(i)]),
                ([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(t(i) >= 0, t(i) < N, s(t(i)) == i)), [t(i)])]
    s, t = skolems(ctx, 'draw:%s:%d' % (key, k), [N] + ([num(seed)] if seed is not None else []), [[I, I], [I, I]], axioms)
    ctx.ghost.setdefault('permutations', []).append((s, t, N, key, k, seed))
    return s, t


def draw_permutation(ctx, o, x):
    if not isinstance(x, (Arr, PyList, Seq)):
        n = scal(x)
        s, t = draw(ctx, o, n)
        r = mk(ctx, (n,), lambda i: s(num(i)), 'int')
        r.buf.inverse = (t, r.buf.read)
        return r
    a = to_arr(ctx, x)
    rd = a.frozen()
    s, t = draw(ctx, o, a.shape[0])
    return mk(ctx, a.shape, lambda i, *r: rd(s(num(i)), *r), a.dtype)


def draw_shuffle(ctx, o, x):
    if not isinstance(x, Arr):
        raise Unsupported('shuffle of %s' % type(x).__name__)
    rd = x.frozen()
    s, t = draw(ctx, o, x.shape[0])
    x.write(lambda i, *r: (True, rd(s(num(i)), *r)))


def random_extern(ctx, path, args, kw):
    g = random_state(ctx, 'global')
    n = path.split('.')[-1]
    ctx.used_externs.add(path)
    if n == 'RandomState' and (args or kw):
        sd = args[0] if args else kw['seed']
        return random_state(ctx, 'global') if sd is None else random_state(ctx, 'seeded', sd)
    if n in g.methods:
        return g.methods[n](ctx, g, *args)
    raise Unsupported('call of %s' % path)


def arange(ctx, args, kw):
    xs = [x.get() if isinstance(x, Arr) and x.ndim == 0 else x for x in args]
    if len(xs) == 1:
        lo, hi, st = 0, xs[0], 1
    elif len(xs) == 2:
        lo, hi, st = xs[0], xs[1], 1
    else:
        lo, hi, st = xs
    dt = parse_dtype(kw.get('dtype'), 'int')
    if any(isinstance(x, float) or is_z3(x) and x.sort() == R for x in (lo, hi, st)):
        raise Unsupported('arange over reals')
    ln = range_len(ctx, lo, hi, st)
    return mk(ctx, (ln,), lambda i: cast(num(lo) + num(i) * num(st) if not (isinstance(st, int) and st == 1) else
                                         (num(i) if isinstance(lo, int) and lo == 0 else num(lo) + num(i)), dt), dt)


def range_len(ctx, lo, hi, st):
    lo, hi, st = [x.get() if isinstance(x, Arr) and x.ndim == 0 else x for x in (lo, hi, st)]
    if all(isinstance(x, int) for x in (lo, hi, st)):
        return len(range(lo, hi, st))
    d = z3.simplify(num(hi) - num(lo))
    if isinstance(st, int) and st == 1:
        if ctx.entails(d >= 0):
            return d
        return z3.If(d >= 0, d, z3.IntVal(0))
    if not ctx.entails(num(st) > 0):
        raise Unsupported('range with a possibly non-positive step')
    q = (d + num(st) - 1) / num(st)
    if ctx.entails(d >= 0):
        return q
    return z3.If(d >= 0, q, z3.IntVal(0))


def rng(ctx, args, kw, kind='range'):
    xs = [x.get() if isinstance(x, Arr) and x.ndim == 0 else x for x in args]
    if len(xs) == 1:
        lo, hi, st = 0, xs[0], 1
    elif len(xs) == 2:
        lo, hi, st = xs[0], xs[1], 1
    else:
        lo, hi, st = xs
        if isinstance(st, int) and st < 0 and all(isinstance(x, int) for x in xs):
            return Seq(len(range(*xs)), lambda i: (lo + i * st) if isinstance(i, int) else num(lo) + num(i) * st, kind)
        if isinstance(st, int) and st == -1:
            d = num(lo) - num(hi)
            if not ctx.entails(d >= 0):
                d = z3.If(d >= 0, d, z3.IntVal(0))
            return Seq(d, lambda i: num(lo) - num(i), kind)
    for x in (lo, hi, st):
        if isinstance(x, float) or is_z3(x) and x.sort() == R:
            raise PyExc('TypeError')
    n = range_len(ctx, lo, hi, st)

    def el(i):
        if all(isinstance(x, int) for x in (lo, st, i)):
            return lo + i * st
        e = num(i) if isinstance(st, int) and st == 1 else num(i) * num(st)
        if is_z3(st):          # by the definition of the number of steps (the product is not linear)
            ctx.assume(z3.Implies(z3.And(num(i) >= 0, num(i) < num(n)), z3.And(e >= 0, num(lo) + e < num(hi))))
        return e if isinstance(lo, int) and lo == 0 else num(lo) + e
    return Seq(n, el, kind)


py_getattr = builtins.getattr


# -- attributes ----------------------------------------------------------------------------------------------------------
def B_(name, f):
    return Builtin(name, f)


def getattr(ctx, o, attr):
    if isinstance(o, Arr):
        return arr_attr(ctx, o, attr)
    if isinstance(o, PyList):
        if attr == 'append':
            def ap(ctx, args, kw):
                o.raw = o.raw + [args[0]]
            return B_('list.append', ap)
        if attr == 'extend':
            def ex(ctx, args, kw):
                o.raw = o.raw + ctx.segments(args[0])
            return B_('list.extend', ex)
        if attr == 'copy':
            return B_('list.copy', lambda ctx, a, k: PyList(ctx, o.raw))
        if attr == 'pop':
            def pop(ctx, args, kw):
                if o.symbolic and not args:
                    last = o.raw[-1]
                    if not isinstance(last, Seg):
                        o.raw = o.raw[:-1]
                        return last
                    if isinstance(last, Marker):
                        raise Unsupported('pop from a list in a symbolic loop')
                    ctx.oblige('pop from a list that is not empty', num(last.n) > 0)
                    m = z3.simplify(num(last.n) - 1)
                    x = last.of(m)
                    if len(x) != 1:
                        raise Unsupported('pop from nested segments')
                    o.raw = o.raw[:-1] + [Seg(m, last.of)]
                    return x[0]
                x = o.items[args[0] if args else -1]
                it = list(o.items)
                it.pop(*args)
                o.items = it
                return x
            return B_('list.pop', pop)
    if isinstance(o, PyDict):
        if attr == 'items':
            return B_('dict.items', lambda ctx, a, k: PyList(ctx, [(x, y) for x, y in o.items.items()]))
        if attr == 'keys':
            return B_('dict.keys', lambda ctx, a, k: PyList(ctx, list(o.items.keys())))
        if attr == 'values':
            return B_('dict.values', lambda ctx, a, k: PyList(ctx, list(o.items.values())))
        if attr == 'get':
            return B_('dict.get', lambda ctx, a, k: o.items.get(a[0], a[1] if len(a) > 1 else None))
        if attr in ('clear',):
            def clear(ctx, a, k):
                o.items = {}
            return B_('dict.clear', clear)
        if attr == 'update':
            def up(ctx, a, k):
                d = dict(o.items)
                if a:
                    d.update(a[0].items)
                d.update(k)
                o.items = d
            return B_('dict.update', up)
    if isinstance(o, (Tok, Toks, Line)):
        return B_('str.' + attr, lambda ctx, a, k: text_method(ctx, o, attr, a, k))
    if isinstance(o, (str, OpaqueStr)):
        if isinstance(o, str) and attr in ('upper', 'lower', 'strip', 'split', 'startswith', 'endswith', 'replace', 'join'):
            def f(ctx, args, kw):
                if attr == 'join' and len(args) == 1 and isinstance(args[0], (PyList, Seq, GenVal)):
                    return join_text(ctx, o, args[0])
                try:
                    args = [a.items if isinstance(a, PyList) else a for a in args]
                    r = str.__dict__[attr](o, *args)
                    return PyList(ctx, r) if isinstance(r, list) else r
                except TypeError:
                    return OpaqueStr('%s of opaque strings' % attr)
            return B_('str.' + attr, f)
        if attr in ('strip', 'lstrip', 'rstrip') and isinstance(o, SymStr):
            blank = lambda p: not (p if isinstance(p, str) else p[1] if p[0] == 'rep' else 'x').strip()

            def strip(ctx, a, k):
                if a:
                    return OpaqueStr('strip')
                ps = list(o.parts)
                for end in ((0,) if attr == 'lstrip' else (-1,) if attr == 'rstrip' else (0, -1)):
                    while ps and blank(ps[end]):
                        ps.pop(end)
                    if ps and isinstance(ps[end], str):
                        ps[end] = ps[end].lstrip() if end == 0 else ps[end].rstrip()
                    elif ps and ps[end][0] not in ('str',) and ps[end][0][:3] != 'fmt':
                        return OpaqueStr('strip')
                return SymStr(*ps) if any(not isinstance(x, str) for x in ps) else ''.join(ps)
            return B_('str.' + attr, strip)
        if attr == 'replace' and isinstance(o, SymStr):
            def replace(ctx, a, k):
                # the texts of numbers contain none of the characters of the pattern
                if len(a) != 2 or not all(isinstance(x, str) for x in a) or not a[0] or set(a[0]) & set('0123456789+-.einfa') or \
                        any(not isinstance(p, str) and p[0] != 'str' for p in o.parts):
                    return OpaqueStr('replace')
                return SymStr(*[p.replace(*a) if isinstance(p, str) else p for p in o.parts])
            return B_('str.replace', replace)
        return B_('str.' + attr, lambda ctx, a, k: OpaqueStr('str.' + attr))
    if is_z3(o) or isinstance(o, (int, float)):
        if attr in ('item', 'copy'):
            return B_(attr, lambda ctx, a, k: o)
        if attr == 'astype':
            def astype(ctx, a, k):
                if isinstance(a[0], str) and a[0][:1] == 'S' and a[0][1:].isdigit() and int(a[0][1:]) >= 32:
                    # the text of the number as bytes (32 are enough for any number)
                    return Abstract('bytes', {'__closed__': True}, dict(str=lambda ctx, s: SymStr("b'", text(o), "'"), decode=lambda ctx, s, *q: text(o)))
                return cast(o, parse_dtype(a[0]))
            return B_(attr, astype)
        if attr in ('sum', 'max', 'min', 'mean'):
            return B_(attr, lambda ctx, a, k: o)
        if attr in ('any', 'all'):
            return B_(attr, lambda ctx, a, k: ctx.truth(o))
        if attr in ('shape',):
            return ()
    if isinstance(o, Extern):
        return extern_attr(ctx, Extern(o.path + '.' + attr))
    if isinstance(o, tuple) and attr == 'index':
        pass
    if isinstance(o, Seq) and attr == 'append':
        raise Unsupported('append to a symbolic sequence')
    if o is None:
        raise PyExc('AttributeError', attr)
    raise Unsupported('attribute %s of %s' % (attr, type(o).__name__))


def join_text(ctx, sep, l):
    parts = []
    for x in ctx.segments(l):
        if isinstance(x, Seg):
            of = x.of(z3.Int('any!'))
            t = text(of[0]) if len(of) == 1 and not isinstance(of[0], Seg) else None
            t = None if t is None else SymStr(('join', sep, t, x.n))
        else:
            t = text(x) if isinstance(x, (str, OpaqueStr)) else None
        if t is None:
            return OpaqueStr('join')
        parts += [sep, t] if parts else [t]
    if all(isinstance(q, str) for q in SymStr(*parts).parts):
        return ''.join(SymStr(*parts).parts)
    return SymStr(*parts)


WS = ' \t\n\r'


def text_method(ctx, o, attr, a, k):
    """methods of text with numbers printed in it"""
    l = as_line(o)
    if attr in ('strip', 'lstrip', 'rstrip') and (not a or a[0] is None or isinstance(a[0], str) and not set(a[0]) - set(WS)):
        cs = a[0] if a and a[0] else WS
        ps = list(l.pieces)
        while attr != 'rstrip' and cs == WS and ps and (isinstance(ps[0], Tok) and ps[0].kind == 'blank' or isinstance(ps[0], str) and not ps[0].strip(WS)):
            ps = ps[1:]
        while attr != 'lstrip' and cs == WS and ps and (isinstance(ps[-1], Tok) and ps[-1].kind == 'blank' or isinstance(ps[-1], str) and not ps[-1].strip(WS)):
            ps = ps[:-1]
        if any(isinstance(p, Tok) and p.kind == 'blank' for p in ps[:1] + ps[-1:]):
            raise Unsupported('strip of given characters')
        if attr != 'rstrip' and ps and isinstance(ps[0], str):
            ps[0] = ps[0].lstrip(cs)
        if attr != 'lstrip' and ps and isinstance(ps[-1], str):
            ps[-1] = ps[-1].rstrip(cs)
        return whole(Line(*ps))
    if attr in ('startswith', 'endswith', 'isdigit', 'isspace', '__contains__') and all(isinstance(x, str) or isinstance(x, tuple) for x in a):
        return l.each(lambda t, loc: py_getattr(t, attr)(*a))
    if attr in ('find', 'index', 'count'):
        raise Unsupported('position in a text')
    if attr == 'split' and len(a) < 2 and not k and (not a or a[0] is None or isinstance(a[0], str) and a[0]):
        sep = a[0] if a else None
        blank = sep is None or sep == ' '
        if not blank and any(isinstance(p, Toks) for p in l.pieces):
            raise Unsupported('split of text')
        out, cur = [], []
        if sep is None:
            l = as_line(text_method(ctx, l, 'strip', [], {}))
        if any(isinstance(p, Tok) and p.kind == 'blank' for p in l.pieces):
            raise Unsupported('split of text')
        for p in l.pieces:
            if isinstance(p, str):
                if sep is None:
                    bits = p.split()
                    bits = ([''] if p[:1] in WS else []) + bits + ([''] if p[-1:] in WS and bits else [])
                    bits = bits or ['', '']
                else:
                    bits = p.split(sep)
                cur.append(bits[0])
                for b in bits[1:]:
                    out.append(cur)
                    cur = [b]
            else:
                if isinstance(p, Tok) and sep is not None and any(sep in x for x in p.samples):
                    raise Unsupported('split inside a number')
                cur.append(p)
        out.append(cur)
        res = []
        for c in out:
            w = as_line(whole(Line(*c)))
            if any(isinstance(p, Toks) for p in w.pieces):
                if len(w.pieces) > 1:
                    raise Unsupported('split of text')
                ts = w.pieces[0]
                res.append(Seg(num(ts.n), lambda i, ts=ts: [ts.f(num(i))]))
            else:
                res.append(whole(w))
        return PyList(ctx, res)
    raise Unsupported('text method %s' % attr)


def re_compile(ctx, a, k):
    import re as _re
    if not all(isinstance(x, (str, int)) for x in a) or k:
        raise Unsupported('regular expression')
    return regex(a[0])


def regex(pat):
    """a regular expression: its effect on a line is found by running it on instances of the line"""
    import re as _re
    try:
        rx = _re.compile(pat)
    except _re.error:
        raise PyExc('error')

    def run(how):
        def f(ctx, o, s):
            if not isinstance(s, (str, Tok, Toks, Line)):
                raise Unsupported('regular expression on unknown text')
            l = as_line(s)

            def one(t, loc):
                m = py_getattr(rx, how)(t)
                if m is None:
                    return None
                out = []
                for g in range(rx.groups + 1):
                    a, b = m.span(g)
                    out.append(None if a < 0 else (loc(a), loc(b, True)))
                return out
            r = l.each(one)
            if r is None:
                return None

            def group(ctx, o, *gs):
                def one(g):
                    if isinstance(g, str):
                        g = rx.groupindex[g]
                    if not isinstance(g, int):
                        raise Unsupported('group of a match')
                    if g > rx.groups:
                        raise PyExc('IndexError')
                    if r[g] is None:
                        return None
                    if None in r[g]:
                        raise Unsupported('a group that is part of a number')
                    return l.part(*r[g])
                return one(gs[0] if gs else 0) if len(gs) < 2 else tuple(one(g) for g in gs)
            return Abstract('match', {}, dict(group=group, groups=lambda ctx, o: tuple(group(ctx, o, g) for g in range(1, rx.groups + 1))))
        return f
    return Abstract('regex', dict(pattern=pat), {h: run(h) for h in ('match', 'search', 'fullmatch')})


def parsed(v, what):
    """number printed in a text"""
    v = whole(as_line(text_method(None, v, 'strip', [], {})))
    if isinstance(v, str):
        return (int if what == 'int' else float)(v)
    if not isinstance(v, Tok):
        raise Unsupported('number read from a text')
    if v.term is None:
        raise Unsupported('number read from a word')
    if what == 'int':
        if v.kind == 'float':
            raise PyExc('ValueError', 'int() of a decimal number')
        return v.term
    return real(v.term)


def arr_attr(ctx, a, attr):
    if attr == 'shape':
        return tuple(a.shape)
    if attr == 'size':
        return size_of(a)
    if attr == 'ndim':
        return a.ndim
    if attr == 'dtype':
        return Extern({'float': 'numpy.float32', 'int': 'numpy.int32', 'bool': 'numpy.bool_', 'obj': 'numpy.object_'}[a.dtype])
    if attr == 'T':
        if a.ndim == 1:
            return a
        rd = a.frozen()
        nd = a.ndim
        dims = [('ax', nd - 1 - d[1], d[2], d[3]) if d[0] == 'ax' else d for d in a.dims]
        return Arr(a.buf, tuple(reversed(a.shape)), dims)
    red = {'sum': r_sum, 'mean': r_mean, 'max': r_max, 'min': r_min, 'any': r_any, 'all': r_all}
    if attr in red:
        return B_('ndarray.' + attr, lambda ctx, args, kw: red[attr](ctx, a, axis_arg(args, kw)))
    if attr in ('copy', 'tolist'):
        return B_('ndarray.copy', lambda ctx, args, kw: copy(ctx, a))
    if attr == 'astype':
        def f(ctx, args, kw):
            dt = parse_dtype(args[0] if args else kw['dtype'])
            rd = a.frozen()
            return mk(ctx, a.shape, lambda *i: cast(rd(*i), dt), dt)
        return B_('ndarray.astype', f)
    if attr in ('ravel', 'flatten'):
        def fl(ctx, args, kw):
            if a.ndim == 1:
                return a if attr == 'ravel' else copy(ctx, a)
            rd = a.frozen()
            if a.ndim == 2:
                w = num(a.shape[1])
                return mk(ctx, (size_of(a),), lambda i: rd(num(i) / w, num(i) % w), a.dtype)
            raise Unsupported('ravel')
        return B_('ndarray.' + attr, fl)
    if attr == 'argsort':
        return B_('ndarray.argsort', lambda ctx, args, kw: call_extern(ctx, 'numpy.argsort', [a] + list(args), kw))
    if attr == 'fill':
        def fill(ctx, args, kw):
            arr_set(ctx, a, tuple([slice(None)] * a.ndim), args[0])
        return B_('ndarray.fill', fill)
    if attr == 'view':
        return B_('ndarray.view', lambda ctx, args, kw: a)
    if attr == 'cumsum':
        return B_('ndarray.cumsum', lambda ctx, args, kw: call_extern(ctx, 'numpy.cumsum', [a] + list(args), kw))
    if attr == 'reshape':
        def rs(ctx, args, kw):
            sh = args[0] if len(args) == 1 and isinstance(args[0], tuple) else tuple(args)
            if len(sh) == 2 and a.ndim == 1 and isinstance(sh[1], int) and sh[1] == 1:
                rd = a.frozen()
                return mk(ctx, (a.shape[0], 1), lambda i, j: rd(i), a.dtype)
            raise Unsupported('reshape')
        return B_('ndarray.reshape', rs)
    if attr == 'item':
        return B_('item', lambda ctx, args, kw: arr_get(ctx, a, args[0]) if args else a.get(*[0] * a.ndim))
    if attr in ('searchsorted', 'std', 'var', 'prod', 'dot', 'argmax', 'argmin', 'nonzero', 'squeeze'):
        return B_('ndarray.' + attr, lambda ctx, args, kw: call_extern(ctx, 'numpy.' + attr, [a] + list(args), kw))
    raise Unsupported('ndarray.' + attr)


def copy(ctx, a):
    rd = a.frozen()
    return mk(ctx, a.shape, lambda *i: rd(*i), a.dtype)


def extern_attr(ctx, e):
    p = e.path
    if p in ('numpy.nan', 'numpy.NaN', 'numpy.NAN'):
        return NAN
    if p == 'numpy.inf':
        return INF
    if p == 'numpy.newaxis':
        return None
    if p in ('numpy.pi',):
        return z3.Real('pi')
    if p in ctx.overrides and not callable(ctx.overrides[p]):
        return ctx.overrides[p]
    return e


# -- sequences -----------------------------------------------------------------------------------------------------------
def seq_concat(ctx, a, b):
    n, f = ctx.seq(a)
    m, g = ctx.seq(b)
    N = num(n)

    def el(i):
        i = num(i)
        x, y = f(i), g(i - N)
        return ite(i < N, x, y)
    return Seq(z3.simplify(N + num(m)), el)


def seq_slice(ctx, o, k):
    lo, ln, st = slice_bounds(ctx, k, o.n)
    if st == -1:
        return Seq(o.n, lambda i: o.elem(num(lo) - num(i)))
    return Seq(ln, lambda i: o.elem(num(lo) + num(i) * st if st != 1 else (i if isinstance(lo, int) and lo == 0 else num(lo) + num(i))))


def flatten_seq(ctx, r):
    n, elem = ctx.seq(r)
    return concat_many(ctx, n, elem)


# -- builtins ------------------------------------------------------------------------------------------------------------
def b_len(ctx, args, kw):
    o = args[0]
    if isinstance(o, Arr):
        if o.ndim == 0:
            raise PyExc('TypeError')
        return o.shape[0]
    if isinstance(o, PyList) and o.symbolic:
        return list_len(o.raw)
    if isinstance(o, (PyList, PyDict)):
        return len(o.items)
    if isinstance(o, (tuple, str)):
        return len(o)
    if isinstance(o, Seq):
        return o.n
    if isinstance(o, Abstract) and 'len' in o.methods:
        return o.methods['len'](ctx, o)
    if isinstance(o, Obj):
        f, c = o.cls.lookup('__len__')
        if f is not None:
            return ctx.call(BoundMethod(f, o), [], {})
    raise Unsupported('len of %s' % type(o).__name__)


def b_enumerate(ctx, args, kw):
    n, el = ctx.seq(args[0])
    st = args[1] if len(args) > 1 else kw.get('start', 0)
    return Seq(n, lambda i: ((i + st) if isinstance(i, int) and isinstance(st, int) else (num(i) if st == 0 and isinstance(st, int) else num(i) + num(st)), el(i)))


def b_zip(ctx, args, kw):
    ss = [ctx.seq(a) for a in args]
    n = ss[0][0]
    for m, _ in ss[1:]:
        if not same(n, m):
            if isinstance(n, int) and isinstance(m, int):
                n = min(n, m)
            elif ctx.entails(num(n) <= num(m)):
                pass
            elif ctx.entails(num(m) <= num(n)):
                n = m
            else:
                n = z3.If(num(n) <= num(m), num(n), num(m))
    return Seq(n, lambda i: tuple(e(i) for _, e in ss))


def scal(x):
    return x.get() if isinstance(x, Arr) and x.ndim == 0 else x


def b_int(ctx, args, kw):
    if not args:
        return 0
    v = scal(args[0])
    if isinstance(v, (Tok, Toks, Line)):
        return parsed(v, 'int')
    if isinstance(v, (int, float, bool)):
        return int(v)
    if is_z3(v):
        return cast(v, 'int')
    if isinstance(v, Arr) and v.ndim == 1:
        return cast(arr_get(ctx, v, 0), 'int')
    raise Unsupported('int of %s' % type(v).__name__)


def b_float(ctx, args, kw):
    v = scal(args[0])
    if isinstance(v, (Tok, Toks, Line)):
        return parsed(v, 'float')
    if isinstance(v, (int, float, bool)):
        return float(v)
    if is_z3(v):
        return real(v)
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            raise PyExc('ValueError')
    raise Unsupported('float of %s' % type(v).__name__)


def b_minmax(which):
    def f(ctx, args, kw):
        if kw.get('default') is not None or kw.get('key') is not None:
            raise Unsupported('min/max with key')
        if len(args) == 1:
            if isinstance(args[0], Arr):
                return (r_max if which == 'max' else r_min)(ctx, args[0])
            n, el = ctx.seq(args[0])
            n = conc(n)
            if isinstance(n, int):
                if n == 0:
                    raise PyExc('ValueError')
                xs = [el(i) for i in range(n)]
            else:
                ctx.oblige('reduction of a non-empty sequence', num(n) > 0)
                return (mk_max if which == 'max' else mk_min)(el, n)
        else:
            xs = list(args)
        r = scal(xs[0])
        for x in xs[1:]:
            x = scal(x)
            if pynum(r) and pynum(x):
                r = max(r, x) if which == 'max' else min(r, x)
                continue
            a, b = num(r), num(x)
            if a.sort() != b.sort():
                a, b = real(a), real(b)
            r = z3.If(a <= b, a, b) if which == 'min' else z3.If(a >= b, a, b)
        return r
    return f


def conc(v):
    if is_z3(v):
        s = z3.simplify(v)
        if z3.is_int_value(s):
            return s.as_long()
    return v


def b_sum(ctx, args, kw):
    a = args[0]
    if isinstance(a, Arr) and a.ndim == 1:
        return r_sum(ctx, a)
    n, el = ctx.seq(a)
    n = conc(n)
    start = args[1] if len(args) > 1 else 0
    if isinstance(n, int) and n <= 64:
        acc = start
        for i in range(n):
            acc = ctx.binop(ast.Add(), acc, el(i))
        return acc
    s = mk_sum(lambda j: num(el(j)), n)
    return s if start == 0 and isinstance(start, int) else ctx.binop(ast.Add(), start, s)


def b_any(ctx, args, kw):
    n, el = ctx.seq(args[0])
    n = conc(n)
    if isinstance(n, int):
        cs = [ctx.truth(el(i)) for i in range(n)]
        if all(isinstance(c, bool) for c in cs):
            return any(cs)
        return z3.Or(*[boolean(c) for c in cs])
    return EXISTS(lam(lambda j: boolean(ctx.truth(el(j)))), num(n))


def b_all(ctx, args, kw):
    n, el = ctx.seq(args[0])
    n = conc(n)
    if isinstance(n, int):
        cs = [ctx.truth(el(i)) for i in range(n)]
        if all(isinstance(c, bool) for c in cs):
            return all(cs)
        return z3.And(*[boolean(c) for c in cs])
    return z3.Not(EXISTS(lam(lambda j: z3.Not(boolean(ctx.truth(el(j))))), num(n)))


def b_abs(ctx, args, kw):
    return umap(ctx, args[0], zabs, None)


def zabs(x):
    if pynum(x):
        return abs(x)
    return z3.If(num(x) >= 0, num(x), -num(x))


def ax_round(ctx, x):
    """round half to even; only |round(x) - x| <= 1/2 and monotonicity at integers are used"""
    f = opaque('ROUND', R, I)
    return f(real(x))


def n_around(ctx, args, kw):
    if isinstance(args[0], Arr) and args[0].ndim or isinstance(args[0], (PyList, Seq)):
        raise Unsupported('around of an array')
    return b_round(ctx, [args[0]] + list(args[1:]) + ([kw['decimals']] if 'decimals' in kw else []), {})


def b_round(ctx, args, kw):
    v = scal(args[0])
    if len(args) > 1:
        if pynum(v):
            return round(v, args[1])
        f = opaque('ROUNDTO', R, I, R)
        return f(real(v), num(args[1]))
    if pynum(v):
        return round(v)
    return ax_round(ctx, v)


def b_isinstance(ctx, args, kw):
    o, c = args
    cs = list(c) if isinstance(c, tuple) else [c]
    if isinstance(o, Abstract) and 'isinstance' in o.methods:
        rs = [o.methods['isinstance'](ctx, o, k) for k in cs]
        if any(r is True for r in rs):
            return True
        rs = [r for r in rs if r is not False]
        return z3.Or(*rs) if rs else False
    for k in cs:
        if isinstance(k, ClassVal):
            if isinstance(o, Obj) and k in o.cls.mro():
                return True
            if isinstance(o, Abstract) and o.cls is not None and k in o.cls.mro():
                return True
        elif isinstance(k, Extern):
            p = k.path.split('.')[-1]
            if isinstance(o, str) and p in ('str', 'basestring', 'string_types'):
                return True
            if isinstance(o, (OpaqueStr,)) and p in ('str', 'basestring', 'string_types'):
                return True
            if isinstance(o, Abstract) and p in o.attrs.get('__isa__', ()):
                return True
            if isinstance(o, bool):
                if p in ('bool', 'int', 'Integral'):
                    return True
            elif isinstance(o, int) or is_z3(o) and o.sort() == I:
                if p in ('int', 'integer', 'Integral', 'Number', 'Real'):
                    return True
            elif isinstance(o, float) or is_z3(o) and o.sort() == R:
                if p in ('float', 'floating', 'Number', 'Real'):
                    return True
            elif isinstance(o, Arr) and p == 'ndarray':
                return True
            elif isinstance(o, PyList) and p == 'list':
                return True
            elif isinstance(o, tuple) and p == 'tuple':
                return True
            elif isinstance(o, PyDict) and p == 'dict':
                return True
    return False


def b_hasattr(ctx, args, kw):
    try:
        ctx.getattr(args[0], args[1])
        return True
    except PyExc:
        return False


def b_getattr(ctx, args, kw):
    try:
        return ctx.getattr(args[0], args[1])
    except PyExc:
        if len(args) > 2:
            return args[2]
        raise


def b_sorted(ctx, args, kw):
    if isinstance(args[0], Abstract) and 'sorted' in args[0].methods:
        return args[0].methods['sorted'](ctx, args[0])
    n, el = ctx.seq(args[0])
    n = conc(n)
    if isinstance(n, int) and all(isinstance(el(i), (int, float, str)) for i in range(n)):
        return PyList(ctx, sorted([el(i) for i in range(n)], reverse=bool(kw.get('reverse', False))))
    raise Unsupported('sorted of symbolic values')


def b_list(ctx, args, kw):
    if not args:
        return PyList(ctx, [])
    n, el = ctx.seq(args[0])
    n = conc(n)
    if isinstance(n, int):
        return PyList(ctx, [el(i) for i in range(n)])
    return PyList(ctx, [Seg(n, lambda i: [el(i)])])


def b_tuple(ctx, args, kw):
    if not args:
        return ()
    return tuple(ctx.concrete_items(args[0]))


def b_next(ctx, args, kw):
    if isinstance(args[0], Abstract) and 'next' in args[0].methods:
        return args[0].methods['next'](ctx, args[0], *args[1:])
    raise Unsupported('next of %s' % type(args[0]).__name__)


def b_map(ctx, args, kw):
    f = args[0]
    ss = [ctx.seq(a) for a in args[1:]]
    return Seq(ss[0][0], lambda i: ctx.call(f, [e(i) for _, e in ss], {}))


def b_str(ctx, args, kw):
    if args and isinstance(args[0], Abstract) and 'str' in args[0].methods:
        return args[0].methods['str'](ctx, args[0])
    if args and isinstance(args[0], str):
        return args[0]
    if args and isinstance(args[0], int) and not isinstance(args[0], bool):
        return str(args[0])
    if args and isinstance(args[0], SymStr):
        return args[0]
    if args and is_z3(args[0]):
        return SymStr(('str', args[0]))
    return OpaqueStr('str()')


def b_reversed(ctx, args, kw):
    n, el = ctx.seq(args[0])
    if isinstance(n, int):
        return PyList(ctx, [el(n - 1 - i) for i in range(n)])
    return Seq(n, lambda i: el(num(n) - 1 - num(i)))


def b_pow(ctx, args, kw):
    return power(ctx, args[0], args[1])


def b_prange(ctx, args, kw):
    kw = {k: v for k, v in kw.items() if k not in ('nogil', 'schedule', 'num_threads', 'chunksize')}
    return rng(ctx, args, kw, 'prange')


def b_open(ctx, args, kw):
    if 'open' in ctx.overrides:
        return ctx.overrides['open'](ctx, args, kw)
    raise Unsupported('open')


BUILTINS = {
    'open': b_open,
    'len': b_len, 'range': rng, 'xrange': rng, 'prange': b_prange, 'enumerate': b_enumerate, 'zip': b_zip,
    'abs': b_abs, 'max': b_minmax('max'), 'min': b_minmax('min'), 'sum': b_sum, 'any': b_any, 'all': b_all,
    'round': b_round, 'isinstance': b_isinstance, 'hasattr': b_hasattr, 'getattr': b_getattr, 'sorted': b_sorted,
    'map': b_map, 'print': lambda ctx, a, k: None, 'pow': b_pow, 'reversed': b_reversed,
    'next': b_next,
    'callable': lambda ctx, a, k: isinstance(a[0], (FuncVal, Builtin, BoundMethod, ClassVal)),
    'repr': b_str, 'id': lambda ctx, a, k: z3.Int('id!%d' % id(a[0])), 'hash': lambda ctx, a, k: opaque_hash(ctx, a[0]),
}


def opaque_hash(ctx, o):
    if isinstance(o, Obj):
        f, c = o.cls.lookup('__hash__')
        if f is not None:
            return ctx.call(BoundMethod(f, o), [], {})
    raise Unsupported('hash')


# -- numpy / scipy functions ---------------------------------------------------------------------------------------------
def alloc(fill):
    def f(ctx, args, kw):
        sh = args[0] if args else kw['shape']
        dt = parse_dtype(kw.get('dtype', args[1] if len(args) > 1 and fill != 'full' else None))
        val = fill
        if fill == 'full':
            val = args[1] if len(args) > 1 else kw['fill_value']
            dt = parse_dtype(kw.get('dtype', args[2] if len(args) > 2 else None), dtype_of(val))
        sh = scal(sh)
        if isinstance(sh, PyList):
            sh = tuple(sh.items)
        if isinstance(sh, Arr):
            sh = tuple(arr_get(ctx, sh, i) for i in range(sh.shape[0]))
        if not isinstance(sh, tuple):
            sh = (sh,)
        sh = tuple(conc(scal(s)) for s in sh)
        for s in sh:
            if is_z3(s) and s.sort() == R:
                raise PyExc('TypeError')
        if fill is None:
            u = fresh_fun('uninit', *([I] * (len(sh) + len(ctx.loop_idx)) + [SORT.get(dt, R)]))
            lp = list(ctx.loop_idx)
            return mk(ctx, sh, lambda *i: u(*(lp + [num(x) for x in i])), dt)
        v = cast(val, dt)
        r = mk(ctx, sh, lambda *i: v, dt)
        if dt == 'obj':
            r.buf.cells = (Buffer(ctx, len(sh), lambda *i: z3.IntVal(-1), 'int', shape=tuple(sh)), Buffer(ctx, len(sh) + 1, lambda *i: NAN, 'float'))
        return r
    return f


def object_cells(a, view):
    """an array of one-dimensional float arrays: (lengths, contents) of the cells of the view"""
    ln, val = a.buf.cells
    lens = Arr(ln, view.shape, view.dims)
    return lens, val, view.dims


def cell_get(ctx, view):
    lens, val, dims = object_cells(view, view)
    n = z3.simplify(num(lens.get()))
    while z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE:
        fs = ctx.axioms + ctx.pc
        if ctx.prover.direct(fs, n.arg(0)):
            n = n.arg(1)
        elif ctx.prover.direct(fs, z3.Not(n.arg(0))):
            n = n.arg(2)
        else:
            break
    ctx.oblige('the cell of the array holds an array', num(n) >= 0)
    return Arr(val, (n,), list(dims) + [('ax', 0, 0, 1)])


def cell_set(ctx, view, v):
    if not isinstance(v, Arr) or v.ndim != 1 or v.dtype != 'float':
        raise Unsupported('object array store')
    lens, val, dims = object_cells(view, view)
    src, n = v.frozen(), num(v.shape[0])
    lens.write(lambda: (True, n))
    Arr(val, (n,), list(dims) + [('ax', 0, 0, 1)]).write(lambda i: (True, num(src(i))))


def like(fill):
    def f(ctx, args, kw):
        a = to_arr(ctx, args[0])
        dt = parse_dtype(kw.get('dtype', args[1] if len(args) > 1 else None), a.dtype)
        k = dict(kw)
        k['dtype'] = Extern('numpy.' + {'float': 'float32', 'int': 'int32', 'bool': 'bool_', 'obj': 'object_'}[dt])
        return alloc(fill)(ctx, [tuple(a.shape)], k)
    return f


def n_array(ctx, args, kw):
    dt = kw.get('dtype', args[1] if len(args) > 1 else None)
    v = args[0]
    d = parse_dtype(dt, None) if dt is not None else None
    if d == 'obj':
        return to_arr(ctx, v) if isinstance(v, Arr) else v
    a = to_arr(ctx, v, d) if not isinstance(v, Arr) else v
    if d is not None and a.dtype != d:
        rd = a.frozen()
        return mk(ctx, a.shape, lambda *i: cast(rd(*i), d), d)
    return a


def n_array_copy(ctx, args, kw):
    a = n_array(ctx, args, kw)
    return copy(ctx, a) if isinstance(a, Arr) and a is args[0] else a


def n_append(ctx, args, kw):
    a, b = to_arr(ctx, args[0]), to_arr(ctx, args[1])
    if b.ndim == 0:
        v = b.get()
        b = mk(ctx, (1,), lambda i: v, b.dtype)
    return concat(ctx, [a, b])


def concat(ctx, arrs):
    dt = join_dtype([a.dtype for a in arrs])
    if any(a.ndim != 1 for a in arrs):
        raise Unsupported('concatenation of matrices')
    starts, tot = [], 0
    for a in arrs:
        starts.append(tot)
        tot = tot + a.shape[0] if isinstance(tot, int) and isinstance(a.shape[0], int) else num(tot) + num(a.shape[0])
    rds = [a.frozen() for a in arrs]

    def rd(i):
        i = num(i)
        e = cast(rds[-1](i - num(starts[-1])), dt)
        for k in range(len(arrs) - 2, -1, -1):
            e = ite(i < num(starts[k + 1]), cast(rds[k](i - num(starts[k])), dt), e)
        return e
    return mk(ctx, (tot if isinstance(tot, int) else z3.simplify(tot),), rd, dt)


def concat_many(ctx, n, elem):
    """the arrays of a list of symbolic length, one after the other: part k starts at START(k); cell i is cell pos(i) of part(i)"""
    n = num(n)
    k, i = fresh('k'), fresh('i')
    a0 = to_arr(ctx, elem(z3.Int('mk!k')))
    if a0.ndim != 1:
        raise Unsupported('concatenation of matrices')

    def length(k):
        return num(to_arr(ctx, elem(k)).shape[0])

    def cell(k, j):
        return num(to_arr(ctx, elem(k)).get(j))
    srt = num(cell(z3.Int('mk!k'), z3.Int('mk!j'))).sort()

    def axioms(fs):
        start, part, pos, val = fs
        return [([], start(z3.IntVal(0)) == 0, None),
                ([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(start(k + 1) == start(k) + length(k), start(k) >= 0)), [start(k)]),
                ([k, i], z3.Implies(z3.And(k >= 0, k < n, i >= 0, i < length(k)), z3.And(part(start(k) + i) == k, pos(start(k) + i) == i, start(k) + i < start(n), val(start(k) + i) == cell(k, i))), [part(start(k) + i)]),
                ([i], z3.Implies(z3.And(i >= 0, i < start(n)), z3.And(part(i) >= 0, part(i) < n, pos(i) >= 0, pos(i) < length(part(i)), start(part(i)) + pos(i) == i, val(i) == cell(part(i), pos(i)))), [val(i)])]
    start, part, pos, val = skolems(ctx, 'concat', [length(z3.Int('mk!k')), num(cell(z3.Int('mk!k'), z3.Int('mk!j'))), n], [[I, I], [I, I], [I, I], [I, srt]], axioms)
    inside = lambda k, i: z3.Implies(z3.And(k >= 0, k < n, i >= 0, i < length(k)), z3.And(part(start(k) + i) == k, pos(start(k) + i) == i, start(k) >= 0, start(k) + i < start(n), val(start(k) + i) == cell(k, i)))
    of = lambda i: z3.Implies(z3.And(i >= 0, i < start(n)), z3.And(part(i) >= 0, part(i) < n, pos(i) >= 0, pos(i) < length(part(i)), start(part(i)) + pos(i) == i, val(i) == cell(part(i), pos(i))))
    ctx.ghost.setdefault('concatenations', []).append((n, start, part, pos, val, inside, of))
    total = start(n)
    ctx.assume(total >= 0)
    return mk(ctx, (total,), lambda i: val(num(i)), a0.dtype)


def n_concatenate(ctx, args, kw):
    axis = axis_arg(args, kw, 1)
    try:
        items = [to_arr(ctx, x) for x in ctx.concrete_items(args[0])]
    except Unsupported:
        if axis not in (None, 0):
            raise
        return concat_many(ctx, *ctx.seq(args[0]))
    if axis not in (None, 0):
        raise Unsupported('concatenate axis')
    return concat(ctx, items)


def n_unique(ctx, args, kw):
    a = to_arr(ctx, args[0])
    if a.ndim != 1:
        a = arr_attr(ctx, a, 'ravel').fn(ctx, [], {})
    n = a.shape[0]
    rd = a.frozen()
    srt = SORT[a.dtype]
    i, j = fresh('i'), fresh('j')
    N = num(n)

    def axioms(fs):
        mm, u, first, cls = fs
        m = mm()
        return [([], z3.And(m >= 0, z3.Implies(N >= 0, m <= N), z3.Implies(N > 0, m > 0)), None),
                ([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(first(i) >= 0, first(i) < N, num(rd(first(i))) == u(i), cls(first(i)) == i)), [first(i)]),
                ([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(first(i) >= 0, first(i) < N, num(rd(first(i))) == u(i))), [u(i)]),
                ([i, j], z3.Implies(z3.And(i >= 0, i < j, j < m), u(i) < u(j)), [z3.MultiPattern(u(i), u(j))]),
                ([j], z3.Implies(z3.And(j >= 0, j < N), z3.And(cls(j) >= 0, cls(j) < m, u(cls(j)) == num(rd(j)), first(cls(j)) <= j)), [cls(j)])]
    mm, u, first, cls = skolems(ctx, 'uniq', [num(rd(z3.Int('mk!j'))), N], [[I], [I, srt], [I, I], [I, I]], axioms)
    m = mm()
    ctx.ghost.setdefault('unique_list', []).append((m, u, first, cls, N, rd))
    member = lambda i: z3.Implies(z3.And(i >= 0, i < m), z3.And(first(i) >= 0, first(i) < N, num(rd(first(i))) == u(i), cls(first(i)) == i))
    klass = lambda j: z3.Implies(z3.And(j >= 0, j < N), z3.And(cls(j) >= 0, cls(j) < m, u(cls(j)) == num(rd(j)), first(cls(j)) <= j))
    ctx.ghost.setdefault('uniques', []).append(dict(m=m, n=N, value=u, first=first, class_of=cls, member=member, **{'class': klass}))
    ctx.ghost['member'] = lambda i: z3.Implies(z3.And(i >= 0, i < m), z3.And(first(i) >= 0, first(i) < N, num(rd(first(i))) == u(i), cls(first(i)) == i))
    ctx.ghost['class'] = lambda j: z3.Implies(z3.And(j >= 0, j < N), z3.And(cls(j) >= 0, cls(j) < m, u(cls(j)) == num(rd(j)), first(cls(j)) <= j))
    out = [mk(ctx, (m,), lambda i: u(num(i)), a.dtype)]
    if kw.get('return_index'):
        out.append(mk(ctx, (m,), lambda i: first(num(i)), 'int'))
    if kw.get('return_inverse'):
        out.append(mk(ctx, (n,), lambda i: cls(num(i)), 'int'))
    if kw.get('return_counts'):
        out.append(mk(ctx, (m,), lambda i: mk_sum(lambda j: z3.If(num(rd(j)) == u(num(i)), z3.IntVal(1), z3.IntVal(0)), n), 'int'))
    return out[0] if len(out) == 1 else tuple(out)


def n_ediff1d(ctx, args, kw):
    a = to_arr(ctx, args[0])
    rd = a.frozen()
    n = a.shape[0]
    ln = max(n - 1, 0) if isinstance(n, int) else (z3.simplify(num(n) - 1) if ctx.entails(num(n) >= 1) else z3.If(num(n) >= 1, num(n) - 1, z3.IntVal(0)))
    if kw:
        raise Unsupported('ediff1d arguments')
    return mk(ctx, (ln,), lambda i: num(rd(num(i) + 1)) - num(rd(i)), a.dtype)


def n_where(ctx, args, kw):
    if len(args) == 3:
        c, a, b = [to_arr(ctx, x) for x in args]
        shape, (fc, fa, fb) = broadcast(ctx, [c, a, b])
        dt = join_dtype([a.dtype, b.dtype])
        r = mk(ctx, shape, lambda *i: cast(ite(boolean(fc(*i)), fa(*i), fb(*i)), dt), dt)
        return r
    m = to_arr(ctx, args[0])
    if m.ndim != 1:
        raise Unsupported('where on a matrix')
    if m.dtype != 'bool':
        rd = m.frozen()
        m = mk(ctx, m.shape, lambda i: num(rd(i)) != 0, 'bool')
    return (selection(ctx, m).arr(),)


AT = opaque('AT', I, B)         # instantiation trigger (no meaning)


def n_in1d(ctx, args, kw):
    a, b = to_arr(ctx, args[0]), to_arr(ctx, args[1])
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported('in1d on matrices')
    fa, fb = a.frozen(), b.frozen()
    inv = bool(kw.get('invert', False))
    na, nb = num(a.shape[0]), num(b.shape[0])
    i, k = fresh('i'), fresh('k')
    both = fa(z3.Int('mk!j')), fb(z3.Int('mk!l'))
    srt = num(both[0]).sort()
    eq = lambda x, k: scalar_cmp(ctx, Eq(), num(fb(k)), x)

    def axioms(fs):
        mem, w, av = fs
        return [([i], z3.Implies(z3.And(i >= 0, i < na), av(i) == num(fa(i))), [av(i)]),
                ([i], z3.Implies(z3.And(i >= 0, i < na, mem(i)), z3.And(w(i) >= 0, w(i) < nb, AT(w(i)), eq(av(i), w(i)))), [mem(i)]),
                ([i, k], z3.Implies(z3.And(i >= 0, i < na, k >= 0, k < nb, eq(av(i), k)), mem(i)), [z3.MultiPattern(mem(i), AT(k))])]
    mem, w, av = skolems(ctx, 'in', [num(both[0]), num(both[1]), na, nb], [[I, B], [I, I], [I, srt]], axioms)
    ctx.ghost.setdefault('members', []).append((mem, w, av, na))
    return mk(ctx, a.shape, lambda i: z3.Not(mem(num(i))) if inv else mem(num(i)), 'bool')


def n_cumsum(ctx, args, kw):
    a = to_arr(ctx, args[0])
    axis = axis_arg(args, kw, 1)
    rd = a.frozen()
    dt = 'int' if a.dtype == 'bool' else a.dtype
    if a.ndim == 1:
        return mk(ctx, a.shape, lambda i: mk_sum(lambda j: num(rd(j)), num(i) + 1), dt)
    if a.ndim == 2 and axis in (0, 1, -1):
        if axis == 0:
            return mk(ctx, a.shape, lambda i, c: mk_sum(lambda j: num(rd(j, c)), num(i) + 1), dt)
        return mk(ctx, a.shape, lambda r, i: mk_sum(lambda j: num(rd(r, j)), num(i) + 1), dt)
    raise Unsupported('cumsum')


GRID = opaque('GRID', R, R, I, I, R)


def n_linspace(ctx, args, kw):
    """n equally spaced values from lo to hi"""
    lo, hi = [args[k] if len(args) > k else kw[nm] for k, nm in ((0, 'start'), (1, 'stop'))]
    n = args[2] if len(args) > 2 else kw.get('num', 50)
    if kw.get('endpoint') is False or kw.get('retstep'):
        raise Unsupported('linspace')
    lo, hi, n = real(scal(lo)), real(scal(hi)), num(scal(n))
    ctx.oblige('number of values', n >= 0)
    grid = lambda i: GRID(lo, hi, n, num(i))
    i, j = fresh('i'), fresh('j')
    at = ctx.ghost.get('linspace')
    if at:
        at(lo, hi, n)
    else:
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, n >= 2), grid(i) == lo + (hi - lo) * z3.ToReal(i) / z3.ToReal(n - 1)), patterns=[grid(i)]))
    r = mk(ctx, (n,), grid, 'float')
    r.buf.grid = (lo, hi, n, r.buf.read)
    return r


def n_histogram(ctx, args, kw):
    """how many of the values are in each of the bins; the last bin contains its upper edge"""
    a = to_arr(ctx, args[0])
    e = args[1] if len(args) > 1 else kw.get('bins')
    if len(args) > 2 or set(kw) - {'bins'} or not isinstance(e, Arr) or e.ndim != 1 or a.ndim != 1:
        raise Unsupported('histogram')
    g = e.buf.__dict__.get('grid')
    ed = e.frozen()
    B = num(e.shape[0]) - 1
    ctx.oblige('bins: at least one', B >= 1)
    if g is not None and e.buf.read is g[3] and same(g[2], e.shape[0]) and len(e.dims) == 1 and e.dims[0][0] == 'ax' and same(e.dims[0][2], 0) and e.dims[0][3] == 1:
        ctx.oblige('bins: the edges do not decrease', g[0] <= g[1])
    else:
        k = fresh('k')
        ctx.oblige('bins: the edges do not decrease', z3.Implies(z3.And(k >= 0, k < B), real(ed(k)) <= real(ed(k + 1))))
    m = masked(a)
    x, N, keep = (a.frozen(), a.shape[0], lambda r: z3.BoolVal(True)) if m is None else (m[1], m[0].n, m[0].mask)

    def inside(b, y):
        lo, hi = real(ed(b)), real(ed(b + 1))
        return z3.And(lo <= y, z3.If(b == z3.simplify(B - 1), y <= hi, y < hi))
    h = mk(ctx, (z3.simplify(B),), lambda b: mk_sum(lambda r: z3.If(z3.And(keep(r), inside(num(b), real(x(r)))), z3.IntVal(1), z3.IntVal(0)), N), 'int')
    return (h, e)


def n_average(ctx, args, kw):
    w = kw.get('weights', args[2] if len(args) > 2 else None)
    axis = axis_arg(args, kw, 1)
    if w is None:
        return r_mean(ctx, args[0], axis)
    a, w = to_arr(ctx, args[0]), to_arr(ctx, w)
    if a.ndim == 1 and w.ndim == 1:
        fa, fw = a.frozen(), w.frozen()
        return mk_sum(lambda j: real(fa(j)) * real(fw(j)), a.shape[0]) / real(mk_sum(lambda j: num(fw(j)), a.shape[0]))
    raise Unsupported('weighted average')


def defined(ctx, x):
    """x is a number: a value declared to be one (ghost 'defined' names the symbols), or a least or greatest of such values"""
    x = num(x)
    if x.sort() != R or z3.is_rational_value(x):
        return True
    if x.eq(NAN):
        return False
    if z3.is_app(x):
        nm = x.decl().name()
        if nm in ctx.ghost.get('defined', ()):
            return True
        if x.decl().kind() == z3.Z3_OP_TO_REAL:
            return True
        if nm in ('MINR', 'MAXR'):
            n0, j = len(ctx.pc), fresh('p')
            try:
                if not ctx.entails(x.arg(1) > 0):
                    return False
                ctx.assume(j >= 0, j < x.arg(1))
                return defined(ctx, z3.simplify(apply_lam(x.arg(0), j)))
            finally:
                del ctx.pc[n0:]
        if x.decl().kind() == z3.Z3_OP_ITE:
            return defined(ctx, x.arg(1)) and defined(ctx, x.arg(2))
    return False


def nanred(name):
    def f(ctx, args, kw):
        if isinstance(args[0], (PyList, tuple)) and name in ('NANMIN', 'NANMAX') and len(args) == 1 and not kw:
            xs = args[0].items if isinstance(args[0], PyList) else list(args[0])
            xs = [x.get() if isinstance(x, Arr) and x.ndim == 0 else x for x in xs]
            if 0 < len(xs) <= 4 and all(pynum(x) or is_z3(x) and not z3.is_bool(x) for x in xs):
                r, known = None, False        # the least (greatest) of the numbers among them
                for x in [real(x) for x in xs]:
                    ok = defined(ctx, x)
                    if r is None:
                        r, known = x, ok
                        continue
                    b = z3.If(r <= x if name == 'NANMIN' else r >= x, r, x)
                    if not ok:
                        b = z3.If(x == NAN, r, b)
                    if r.eq(NAN):
                        b = x
                    elif not known:
                        b = z3.If(r == NAN, x, b)
                    r, known = b, known or ok
                return r
        a = to_arr(ctx, args[0])
        axis = axis_arg(args, kw, 1)
        sym = opaque(name, AIR, I, R)
        return reduce_arr(ctx, a, axis, lambda g, n: sym(lam(lambda j: real(g(j))), num(n)), name)
    return f


def n_count_nonzero(ctx, args, kw):
    a = to_arr(ctx, args[0])
    rd = a.frozen()
    if a.ndim != 1:
        raise Unsupported('count_nonzero of a matrix')
    return mk_sum(lambda j: z3.If(boolean(rd(j)), z3.IntVal(1), z3.IntVal(0)), a.shape[0])


def n_sort(ctx, args, kw):
    a = to_arr(ctx, args[0])
    rd = a.frozen()
    if a.ndim == 1 and is_z3(a.shape[0]):
        # np.unique returns its values in increasing order
        for m, u, first, cls, N, r in ctx.ghost.get('unique_list', []):
            if same(m, a.shape[0]) and same(num(rd(z3.Int('mk!j'))), u(z3.Int('mk!j'))):
                return copy(ctx, a)
    return arr_get(ctx, a, argsort(ctx, a))


def n_array_equal(ctx, args, kw):
    a, b = to_arr(ctx, args[0]), to_arr(ctx, args[1])
    if a.ndim != b.ndim:
        return False
    cs = [num(x) == num(y) for x, y in zip(a.shape, b.shape)]
    fa, fb = a.frozen(), b.frozen()
    if a.ndim != 1:
        raise Unsupported('array_equal of matrices')
    return z3.And(*cs, z3.Not(EXISTS(lam(lambda j: num(fa(j)) != num(fb(j))), num(a.shape[0]))))


def n_searchsorted(ctx, args, kw):
    a, v = to_arr(ctx, args[0]), args[1]
    side = kw.get('side', args[2] if len(args) > 2 else 'left')
    fa, n = a.frozen(), a.shape[0]

    def pos(x):
        x = num(x)
        hint = ctx.ghost.get('position')
        P = hint(x) if hint is not None and side == 'left' else None
        if P is not None:
            # a value that occurs at position P of a strictly increasing array is found there
            i, j = fresh('i'), fresh('j')
            ctx.oblige('searchsorted: the array is strictly increasing', z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < num(n)), num(fa(i)) < num(fa(j)))))
            ctx.oblige('searchsorted: the value occurs in the array', z3.And(P >= 0, P < num(n), num(fa(P)) == x))
            ctx.assume(P >= 0, P < num(n))
            return P
        return mk_sum(lambda j: z3.If((num(fa(j)) < x) if side == 'left' else (num(fa(j)) <= x), z3.IntVal(1), z3.IntVal(0)), n)
    if isinstance(v, (Arr, PyList, Seq)):
        v = to_arr(ctx, v)
        fv = v.frozen()
        return mk(ctx, v.shape, lambda *i: pos(fv(*i)), 'int')
    return pos(v)


def n_hash(*a):
    raise Unsupported('hash')


def opaque_fun(name, arity_sorts, ret=R):
    sym = opaque(name, *arity_sorts, ret)
    return sym


def stats2(name):
    def f(ctx, args, kw):
        a, b = to_arr(ctx, args[0]), to_arr(ctx, args[1])
        fa, fb = a.frozen(), b.frozen()
        j = fresh('j')
        sym = opaque(name, AIR, I, AIR, I, R)
        v = sym(lam(lambda j: real(fa(j))), num(a.shape[0]), lam(lambda j: real(fb(j))), num(b.shape[0]))
        return Abstract(name, attrs={'correlation': v, 'statistic': v})
    return f


def uf(sym):
    return lambda ctx, args, kw: umap(ctx, args[0], lambda x: sym(real(x)), 'float')


def n_floor(ctx, args, kw):
    return umap(ctx, args[0], lambda x: to_real_int(floor_int(z3.simplify(real(x)))), 'float')


def n_ceil(ctx, args, kw):
    return umap(ctx, args[0], lambda x: z3.ToReal(-z3.ToInt(-real(x))), 'float')


def to_real_int(x):
    return z3.ToReal(x)


def n_power(ctx, args, kw):
    a, b = args
    if isinstance(a, (Arr, PyList, Seq)) or isinstance(b, (Arr, PyList, Seq)):
        if not isinstance(b, Arr) and pynum(b):
            return umap(ctx, a, lambda x: power(ctx, x, b), 'float')
        x, y = to_arr(ctx, a), to_arr(ctx, b)
        shape, (fa, fb) = broadcast(ctx, [x, y])
        base = a if pynum(a) else None
        return mk(ctx, shape, lambda *i: real(power(ctx, base if base is not None else fa(*i), fb(*i))), 'float')
    return power(ctx, a, b)


def binary(op):
    return lambda ctx, args, kw: ctx.binop(op(), args[0], args[1])


def compare_(op):
    return lambda ctx, args, kw: ctx.compare(op(), args[0], args[1])


def n_maximum(which):
    def f(ctx, args, kw):
        g = lambda x, y: b_minmax(which)(ctx, [x, y], {})
        if isinstance(args[0], Arr) or isinstance(args[1], Arr):
            a, b = to_arr(ctx, args[0]), to_arr(ctx, args[1])
            shape, (fa, fb) = broadcast(ctx, [a, b])
            dt = join_dtype([a.dtype, b.dtype])
            return mk(ctx, shape, lambda *i: cast(g(fa(*i), fb(*i)), dt), dt)
        return g(*args)
    return f


def logical(fn):
    def f(ctx, args, kw):
        arrs = [to_arr(ctx, a) for a in args]
        shape, fs = broadcast(ctx, arrs)
        if not shape:
            return fn(*[boolean(g()) for g in fs])
        return mk(ctx, shape, lambda *i: fn(*[boolean(g(*i)) for g in fs]), 'bool')
    return f


def n_argmax(which):
    def f(ctx, args, kw):
        a = to_arr(ctx, args[0])
        if a.ndim != 1 or axis_arg(args, kw, 1) not in (None, 0):
            raise Unsupported('argmax axis')
        rd = a.frozen()
        nonempty(ctx, a)
        m = (r_max if which == 'max' else r_min)(ctx, a)
        return mk_first(lambda j: num(rd(j)) == m, a.shape[0])
    return f


def n_isnan(ctx, args, kw):
    return umap(ctx, args[0], lambda x: real(x) == NAN, 'bool')


def n_shape(ctx, args, kw):
    return tuple(to_arr(ctx, args[0]).shape)


def rec_astype(ctx, args, kw):
    dt = parse_dtype(args[0])


def n_isscalar(ctx, args, kw):
    return pynum(args[0]) or is_z3(args[0])


NP = {
    'argsort': lambda ctx, a, k: argsort(ctx, a[0], k.get('kind') in ('stable', 'mergesort')),
    'lexsort': lambda ctx, a, k: (_ for _ in ()).throw(Unsupported('lexsort')),
    'arange': arange, 'zeros': alloc(0), 'ones': alloc(1), 'empty': alloc(None), 'ndarray': alloc(None), 'full': alloc('full'),
    'zeros_like': like(0), 'ones_like': like(1), 'empty_like': like(None),
    'array': n_array_copy, 'asarray': n_array, 'ascontiguousarray': n_array, 'append': n_append, 'concatenate': n_concatenate,
    'hstack': n_concatenate,
    'around': n_around, 'round': n_around, 'round_': n_around, 'unique': n_unique, 'ediff1d': n_ediff1d, 'diff': n_ediff1d, 'where': n_where, 'in1d': n_in1d, 'isin': n_in1d,
    'copy': lambda ctx, a, k: copy(ctx, to_arr(ctx, a[0])),
    'sum': lambda ctx, a, k: r_sum(ctx, a[0], axis_arg(a, k, 1)), 'mean': lambda ctx, a, k: r_mean(ctx, a[0], axis_arg(a, k, 1)),
    'average': n_average, 'max': lambda ctx, a, k: r_max(ctx, a[0], axis_arg(a, k, 1)), 'min': lambda ctx, a, k: r_min(ctx, a[0], axis_arg(a, k, 1)),
    'amax': lambda ctx, a, k: r_max(ctx, a[0], axis_arg(a, k, 1)), 'amin': lambda ctx, a, k: r_min(ctx, a[0], axis_arg(a, k, 1)),
    'any': lambda ctx, a, k: r_any(ctx, a[0], axis_arg(a, k, 1)), 'all': lambda ctx, a, k: r_all(ctx, a[0], axis_arg(a, k, 1)),
    'nanmean': nanred('NANMEAN'), 'nanmin': nanred('NANMIN'), 'nanmax': nanred('NANMAX'), 'nansum': nanred('NANSUM'),
    'abs': b_abs, 'absolute': b_abs, 'fabs': b_abs, 'log2': uf(LOG2), 'exp2': uf(EXP2), 'sqrt': uf(SQRT), 'power': n_power,
    'floor': n_floor, 'ceil': n_ceil, 'cumsum': n_cumsum, 'linspace': n_linspace, 'histogram': n_histogram,
    'square': lambda ctx, a, k: umap(ctx, a[0], lambda x: num(x) * num(x), None),
    'count_nonzero': n_count_nonzero, 'sort': n_sort, 'searchsorted': n_searchsorted, 'array_equal': n_array_equal,
    'logical_not': logical(z3.Not), 'logical_and': logical(z3.And), 'logical_or': logical(z3.Or), 'logical_xor': logical(z3.Xor),
    'add': binary(ast.Add), 'subtract': binary(ast.Sub), 'multiply': binary(ast.Mult), 'divide': binary(ast.Div),
    'true_divide': binary(ast.Div), 'mod': binary(ast.Mod), 'greater': compare_(Gt), 'greater_equal': compare_(GtE),
    'less': compare_(Lt), 'less_equal': compare_(LtE), 'equal': compare_(Eq), 'not_equal': compare_(NotEq),
    'maximum': n_maximum('max'), 'minimum': n_maximum('min'), 'argmax': n_argmax('max'), 'argmin': n_argmax('min'),
    'isnan': n_isnan, 'shape': n_shape, 'isscalar': n_isscalar, 'ravel': lambda ctx, a, k: arr_attr(ctx, to_arr(ctx, a[0]), 'ravel').fn(ctx, [], {}),
    'flip': lambda ctx, a, k: arr_get(ctx, to_arr(ctx, a[0]), slice(None, None, -1)),
    'flipud': lambda ctx, a, k: arr_get(ctx, to_arr(ctx, a[0]), slice(None, None, -1)),
    'float32': b_float, 'float64': b_float, 'int32': b_int, 'int64': b_int, 'size': lambda ctx, a, k: size_of(to_arr(ctx, a[0])),
    'nonzero': n_where, 'flatnonzero': lambda ctx, a, k: n_where(ctx, a, k)[0],
}


def deepcopy(ctx, v, memo):
    """assumed contract of copy.deepcopy: an object graph of equal values and identical sharing, with no mutable part in common"""
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Arr):
        r = copy(ctx, v)
    elif isinstance(v, Obj):
        if v.cls is not None and v.cls.lookup('__deepcopy__')[0] is not None:
            return ctx.call(BoundMethod(v.cls.lookup('__deepcopy__')[0], v), [PyDict(ctx)], {})
        r = memo[id(v)] = Obj(ctx, v.cls, {})
        r.attrs = {k: deepcopy(ctx, x, memo) for k, x in v.attrs.items()}
    elif isinstance(v, PyDict):
        r = memo[id(v)] = PyDict(ctx)
        r.items = {k: deepcopy(ctx, x, memo) for k, x in v.items.items()}
    elif isinstance(v, PyList):
        r = memo[id(v)] = PyList(ctx, [])
        r.items = [deepcopy(ctx, x, memo) for x in v.items]
    elif isinstance(v, tuple):
        r = tuple(deepcopy(ctx, x, memo) for x in v)
    elif isinstance(v, Abstract) and 'deepcopy' in v.methods:
        r = v.methods['deepcopy'](ctx, v, memo)
    elif v is None or isinstance(v, (int, float, str, bool, OpaqueStr, ClassVal, FuncVal, Extern)) or is_z3(v):
        return v
    else:
        raise Unsupported('deepcopy of %s' % type(v).__name__)
    memo[id(v)] = r
    return r


def call_extern(ctx, path, args, kw):
    if path in ctx.overrides:
        return ctx.overrides[path](ctx, args, kw)
    if path == 're.compile':
        return re_compile(ctx, args, kw)
    if path in ('re.match', 're.search', 're.fullmatch') and len(args) == 2 and isinstance(args[0], str):
        r = regex(args[0])
        return r.methods[path[3:]](ctx, r, args[1])
    if path in ('int', 'numpy.int32', 'numpy.int64', 'numpy.uint32'):
        return b_int(ctx, args, kw)
    if path == 'float':
        return b_float(ctx, args, kw)
    if path == 'bool':
        return ctx.truth(args[0])
    if path == 'str':
        return b_str(ctx, args, kw)
    if path == 'list':
        return b_list(ctx, args, kw)
    if path == 'tuple':
        return b_tuple(ctx, args, kw)
    if path == 'dict':
        d = PyDict(ctx, args[0].items if args else {})
        d.items.update(kw)
        return d
    if path.startswith('numpy.random.'):
        return random_extern(ctx, path, args, kw)
    if path.startswith('numpy.'):
        f = NP.get(path[6:])
        if f is not None:
            ctx.used_externs.add(path)
            return f(ctx, args, kw)
    if path in ('scipy.stats.kendalltau', 'scipy.stats.spearmanr', 'scipy.stats.weightedtau'):
        ctx.used_externs.add(path)
        return stats2(path.split('.')[-1] + (str(sorted((k, str(v)) for k, v in kw.items() if k not in ('initial_lexsort',))) if any(k not in ('initial_lexsort',) for k in kw) else ''))(ctx, args, {})
    if path.split('.')[-1].endswith(('Error', 'Exception')):
        return Abstract('exception')
    if path == 'collections.defaultdict':
        return PyDict(ctx, {})
    if path == 'copy.deepcopy':
        ctx.used_externs.add(path)
        return deepcopy(ctx, args[0], {})
    if path.startswith('warnings.'):
        return None
    if path in ('math.ceil', 'math.floor') and len(args) == 1:
        x = real(args[0])
        return -z3.ToInt(-x) if path.endswith('ceil') else z3.ToInt(x)
    raise Unsupported('call of %s' % path)
