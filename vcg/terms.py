"""Terms of the verification conditions.

Scalars are z3 Int/Real/Bool expressions (machine integers and floats are mathematical: see DESIGN.md).
Reductions over index ranges are applications of the symbols below to a z3 lambda and an upper bound; the lower bound is
always 0.  Their meaning is fixed by the lemma schemata of prover.py.
"""
from fractions import Fraction
import itertools
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AIR, AIB, AII = z3.ArraySort(I, R), z3.ArraySort(I, B), z3.ArraySort(I, I)

SUM = z3.Function('SUM', AIR, I, R)        # sum of f(j), 0 <= j < n
SUMI = z3.Function('SUMI', AII, I, I)      # the same over integers
PROD = z3.Function('PROD', AIR, I, R)
FIRST = z3.Function('FIRST', AIB, I, I)    # least j in [0,n) with p(j), or n
LAST = z3.Function('LAST', AIB, I, I)      # greatest j in [0,n) with p(j), or -1
MAXR = z3.Function('MAXR', AIR, I, R)      # maximum over a non-empty range
MAXI = z3.Function('MAXI', AII, I, I)
MINR = z3.Function('MINR', AIR, I, R)
MINI = z3.Function('MINI', AII, I, I)
EXISTS = z3.Function('EXISTS', AIB, I, B)
EXP2 = z3.Function('EXP2', R, R)
LOG2 = z3.Function('LOG2', R, R)
SQRT = z3.Function('SQRT', R, R)
POW = z3.Function('POW', R, I, R)

REDUCTIONS = {'SUM', 'SUMI', 'PROD', 'FIRST', 'LAST', 'MAXR', 'MAXI', 'MINR', 'MINI', 'EXISTS'}
_opaque = {}
_ctr = itertools.count()


def opaque(name, *sorts):
    """An uninterpreted symbol; lambda arguments are compared pointwise by the prover (up to the last Int argument
    that precedes them by convention: (lambda, n) pairs)."""
    key = (name,) + tuple(map(str, sorts))
    if key not in _opaque:
        _opaque[key] = z3.Function(name, *sorts)
    return _opaque[key]


def fresh(prefix, sort=I):
    return z3.Const('%s!%d' % (prefix, next(_ctr)), sort)


def fresh_fun(prefix, *sorts):
    return z3.Function('%s!%d' % (prefix, next(_ctr)), *sorts)


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def num(x):
    """python/numpy number or z3 arithmetic -> z3 arithmetic"""
    if is_z3(x):
        if z3.is_bool(x):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return x
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        fr = Fraction(x)
        return z3.RealVal(str(fr))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    raise TypeError('not a number: %r' % (x,))


def real(x):
    x = num(x)
    if x.sort() == R:
        return x
    return to_real(x)


def to_real(x):
    if z3.is_int_value(x):
        return z3.RealVal(x.as_long())
    if z3.is_app(x):
        k = x.decl().kind()
        if k == z3.Z3_OP_ITE:
            return z3.If(x.arg(0), to_real(x.arg(1)), to_real(x.arg(2)))
        if k == z3.Z3_OP_ADD:
            return z3.Sum([to_real(c) for c in x.children()]) if x.num_args() > 1 else to_real(x.arg(0))
        if k == z3.Z3_OP_TO_INT and False:
            return x.arg(0)
        if x.decl().eq(SUMI):
            return mk_sum(lambda j: to_real(apply_lam(x.arg(0), j)), x.arg(1))
        if x.decl().eq(MAXI):
            return MAXR(lam(lambda j: to_real(apply_lam(x.arg(0), j))), x.arg(1))
        if x.decl().eq(MINI):
            return MINR(lam(lambda j: to_real(apply_lam(x.arg(0), j))), x.arg(1))
    return z3.ToReal(x)


def boolean(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, (int, float)):
        return z3.BoolVal(bool(x))
    if z3.is_bool(x):
        return x
    return x != 0


def mklam(j, body):
    """lambda with a fixed bound name: terms that differ in bound names only are identical"""
    b = z3.Const('j!b', j.sort())
    return z3.Lambda([b], z3.substitute(body, (j, b)))


def lam(f, sort=I):
    j = fresh('j', sort)
    return mklam(j, z3.simplify(f(j)))


def apply_lam(l, j):
    if z3.is_quantifier(l) and l.is_lambda():
        return z3.substitute_vars(l.body(), num(j) if not is_z3(j) else j)
    return z3.Select(l, j)


def mk_sum(f, n):
    n = num(n)
    j = fresh('j')
    body = f(j)
    body = num(body)
    body = z3.simplify(body)
    if body.sort() == I:
        return SUMI(mklam(j, body), n)
    return SUM(mklam(j, body), n)


def mk_prod(f, n):
    return PROD(lam(lambda j: real(f(j))), num(n))


def mk_first(f, n):
    return FIRST(lam(lambda j: boolean(f(j))), num(n))


def mk_last(f, n):
    return LAST(lam(lambda j: boolean(f(j))), num(n))


def mk_max(f, n):
    j = fresh('j')
    b = z3.simplify(num(f(j)))
    return (MAXI if b.sort() == I else MAXR)(mklam(j, b), num(n))


def mk_min(f, n):
    j = fresh('j')
    b = z3.simplify(num(f(j)))
    return (MINI if b.sort() == I else MINR)(mklam(j, b), num(n))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if not is_z3(a) and not is_z3(b) and a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        a, b = z3.BoolVal(a), z3.BoolVal(b)
    if is_z3(a) and z3.is_bool(a) or is_z3(b) and z3.is_bool(b):
        if (not is_z3(a) and isinstance(a, bool)) or (is_z3(a) and z3.is_bool(a)):
            if (not is_z3(b) and isinstance(b, bool)) or (is_z3(b) and z3.is_bool(b)):
                return z3.If(c, boolean(a), boolean(b))
    a, b = num(a), num(b)
    if a.sort() != b.sort():
        if a.sort() in (I, R) and b.sort() in (I, R):
            a, b = real(a), real(b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def same(a, b):
    """structural equality after simplification"""
    if not is_z3(a) and not is_z3(b):
        return a == b
    a, b = num(a), num(b)
    if a.sort() != b.sort():
        if {a.sort(), b.sort()} == {I, R}:
            a, b = real(a), real(b)
        else:
            return False
    if a.eq(b):
        return True
    return z3.is_true(z3.simplify(a == b))


def free_consts(e, seen=None, out=None):
    """names of uninterpreted constants and functions occurring in e"""
    seen = set() if seen is None else seen
    out = set() if out is None else out
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    return out


_nm_cache = {}


def names_of(e):
    hit = _nm_cache.get(e.get_id())
    if hit is None or not hit[0].eq(e):
        hit = _nm_cache[e.get_id()] = (e, free_consts(e))
    return hit[1]


def has_var(e, cache={}):
    """does e contain a free de Bruijn variable?"""
    key = e.get_id()
    hit = cache.get(key)
    if hit is not None and hit[0].eq(e):
        return hit[1]

    def go(x, depth):
        if z3.is_var(x):
            return z3.get_var_index(x) >= depth
        if z3.is_quantifier(x):
            return go(x.body(), depth + x.num_vars())
        return any(go(c, depth) for c in x.children())
    r = go(e, 0)
    cache[key] = (e, r)
    return r


_red_cache = {}


def reductions(e):
    """ground reduction terms (and other lambda-taking applications) inside e, innermost first"""
    hit = _red_cache.get(e.get_id())
    if hit is not None and hit[0].eq(e):
        return hit[1]
    out, seen = [], set()
    st = [(e, False)]
    while st:
        x, done = st.pop()
        if done:
            if not has_var(x) and (x.decl().name() in REDUCTIONS or any(z3.is_quantifier(c) and c.is_lambda() for c in x.children())):
                out.append(x)
            continue
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append((x.body(), False))
        elif z3.is_app(x):
            if x.num_args():
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    st.append((x, True))
                for c in reversed(x.children()):
                    st.append((c, False))
    _red_cache[e.get_id()] = (e, out)
    return out
