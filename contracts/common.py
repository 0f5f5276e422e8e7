"""Vocabulary shared by the contracts."""
import z3
from vcg.terms import *
from vcg.values import *
from vcg.harness import unit

MET = 'rankeval.metrics.'


def rankings(p, n):
    """witnesses of "documents ranked by decreasing key": the recorded sorting permutations, forward and reversed"""
    out = []
    for k, (s, t, N, rd) in enumerate(p.perms):
        if not same(N, n):
            continue
        out.append(('reverse of sorting permutation %d' % k, lambda r, s=s: s(n - 1 - num(r)), lambda d, t=t: n - 1 - t(num(d))))
        out.append(('sorting permutation %d' % k, lambda r, s=s: s(num(r)), lambda d, t=t: t(num(d))))
    uniq, seen = [], set()
    for lab, rho, inv in out:
        key_ = z3.simplify(rho(z3.Int('mk!r'))).sexpr()
        if key_ not in seen:
            seen.add(key_)
            uniq.append((lab, rho, inv))
    return uniq


def is_ranking(rho, inv, n, key):
    r, s, d = fresh('r'), fresh('s'), fresh('d')
    return [z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < n), z3.And(rho(r) >= 0, rho(r) < n))),
            z3.ForAll([d], z3.Implies(z3.And(d >= 0, d < n), z3.And(inv(d) >= 0, inv(d) < n, rho(inv(d)) == d))),
            z3.ForAll([r, s], z3.Implies(z3.And(r >= 0, r < s, s < n), key(rho(r)) >= key(rho(s))))]


def no_raise(v, p, name='no exception'):
    """False when the path raises (recorded as a failure if the path is feasible)"""
    if p.kind == 'normal':
        return True
    if v.feasible_path(p):
        v.fail(name, 'raises %s' % (p.val.cls if p.kind == 'raise' else p.kind))
    return False


def ranked_post(v, paths, n, key, spec, name='result is the metric of the ranked documents'):
    """every path returns spec(rho) for some ranking rho by decreasing key"""
    for p in paths:
        if not no_raise(v, p):
            continue
        alts = []
        for lab, rho, inv in rankings(p, n):
            goals = [(g, p.hyps, []) for g in is_ranking(rho, inv, n, key)]
            goals.append((real(p.val) == real(spec(rho)), p.hyps, []))
            alts.append((lab, goals))
        v.check_any(name, alts)


def in_range(ix, shape):
    return z3.And(*[z3.And(i >= 0, i < num(s)) for i, s in zip(ix, shape)])


def forall(n, f, k=1):
    """forall i in [0, n): f(i)"""
    i = fresh('i')
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < num(n)), f(i)))


def forall2(n, m, f):
    i, j = fresh('i'), fresh('j')
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < num(n), j >= 0, j < num(m)), f(i, j)))


def unchanged(v, paths, arrs):
    for p in paths:
        if p.kind == 'normal':
            for nm, a, f0 in arrs:
                ix = [fresh('u') for _ in a.shape]
                now = v.in_state(p, lambda: a.get(*ix))
                v.check('%s not modified' % nm, z3.ForAll(ix, z3.Implies(in_range(ix, a.shape), num(now) == num(f0(*ix)))), p.hyps)


def count(f, k):
    return mk_sum(lambda r: z3.If(f(r), z3.IntVal(1), z3.IntVal(0)), k)


def dataset(v, name='d', qid_sorted=False, queries=None):
    """a dataset object satisfying the class invariant: offsets(0) = 0, strictly increasing, offsets(last) = n_instances,
    query ids distinct"""
    c = v.ctx
    nq = v.int(name + '.n_queries', 1) if queries is None else queries
    n = v.int(name + '.n_instances', 1)
    nf = v.int(name + '.n_features', 1)
    X, y = v.array(name + '.X', (n, nf)), v.array(name + '.y', n)
    ids = v.array(name + '.query_ids', nq, 'int')
    off = v.array(name + '.query_offsets', nq + 1, 'int')
    fo, fi = off.frozen(), ids.frozen()
    i, j = fresh('i'), fresh('j')
    c.assume(fo(0) == 0, fo(nq) == n)
    c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nq), fo(i) < fo(i + 1)), patterns=[fo(i)]))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j <= nq), fo(i) < fo(j)), patterns=[z3.MultiPattern(fo(i), fo(j))]))
    c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= nq), z3.And(fo(i) >= 0, fo(i) <= n)), patterns=[fo(i)]))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < nq, j >= 0, j < nq, i != j), fi(i) != fi(j)),
                       patterns=[z3.MultiPattern(fi(i), fi(j))]))
    d = v.obj('rankeval.dataset.dataset.Dataset', X=X, y=y, query_ids=ids, query_offsets=off, name=OpaqueStr(name),
              n_instances=n, n_features=nf, n_queries=nq, _hash_cached=None)
    d.sym = dict(n=n, nq=nq, nf=nf, off=fo, ids=fi, y=y.frozen(), X=X.frozen())
    return d


def relevant(hyps, drop, keep=()):
    """the hypotheses without those that mention a symbol with one of the prefixes in drop, unless it is listed in keep"""
    keep = set(keep)
    return [h for h in hyps if not any(n not in keep and n.startswith(tuple(drop)) for n in names_of(h))]


def decl(f, k=1):
    """name of the symbol behind a skolem closure"""
    return f(*[z3.IntVal(0)] * k).decl().name()


def pointwise(v, name, value, spec, n, hyps, extra=None, small=None):
    """congruence step: the outermost sum over [0, n) inside `value` has the same terms as the sum `spec` (obligation, for an
    arbitrary index) -> their equality, to be used as a hypothesis.  None when there is no such sum."""
    rs = [t for t in reductions(z3.simplify(num(value))) if t.decl().eq(spec.decl()) or {t.decl().name(), spec.decl().name()} == {'SUM', 'SUMI'}]
    rs = [t for t in rs if same(t.arg(1), n)]
    if not rs:
        return None
    t = rs[-1]
    k = fresh('i')
    a, b = apply_lam(t.arg(0), k), apply_lam(spec.arg(0), k)
    ex = extra(k) if extra else []
    g = z3.Implies(z3.And(k >= 0, k < num(n)), real(a) == real(b))
    if small is not None:
        v.check_any(name + ' (each term)', [('same terms', [(g, list(hyps) + ex, [], list(small) + ex)])])
    else:
        v.check(name + ' (each term)', g, list(hyps) + ex)
    return real(t) == real(spec)


def red_facts(t, points=()):
    """instances of the definitions of EXISTS(f, n) and LAST(f, n) at the given points and at their witness"""
    nm, f, n = t.decl().name(), t.arg(0), t.arg(1)
    if nm == 'EXISTS':
        w = z3.Const('w!%d' % t.get_id(), I)
        return [z3.Implies(t, z3.And(w >= 0, w < n, apply_lam(f, w)))] + \
            [z3.Implies(z3.And(c >= 0, c < n, apply_lam(f, c)), t) for c in points]
    if nm == 'LAST':
        return [t >= -1, z3.Implies(n >= 0, t < n), z3.Implies(t >= 0, apply_lam(f, t))] + \
            [z3.Implies(z3.And(c >= 0, c < n, apply_lam(f, c)), t >= c) for c in points]
    return []


def witness(t):
    return z3.Const('w!%d' % t.get_id(), I)


def linear_lemma(v, name, terms, n, hyps, at=None):
    """terms: [(coefficient, f)] with sum of coefficient * f(j) = 0 for every j -> lemma: the same combination of the sums is 0.
    By induction on the number of terms of the sums."""
    j, k = fresh('j'), fresh('k')
    S = lambda m: z3.Sum([c * mk_sum(f, m) for c, f in terms])
    zero = z3.IntVal(0)
    small = [z3.substitute(h, (at[0], j)) for h in at[1]] if at else None
    v.check('lemma %s: pointwise' % name, z3.Sum([c * f(j) for c, f in terms]) == 0, hyps, plain=small)
    v.check('lemma %s (induction): first' % name, S(zero) == 0, hyps, plain=sum([sum_def(f, zero) for c, f in terms], []))
    v.check('lemma %s (induction): next' % name, z3.Implies(z3.And(k >= 0, S(k) == 0, z3.Sum([c * f(k) for c, f in terms]) == 0), S(k + 1) == 0), hyps,
            plain=sum([sum_def(f, k) for c, f in terms], []))
    return z3.Implies(num(n) >= 0, S(num(n)) == 0)


def monotone(v, name, f, g, n, hyps):
    """f(i) <= g(i) for every i -> the sums are ordered (induction)"""
    i, k = fresh('i'), fresh('k')
    a, b = (lambda m: mk_sum(f, m)), (lambda m: mk_sum(g, m))
    v.check('%s: each term' % name, z3.Implies(z3.And(i >= 0, i < num(n)), f(i) <= g(i)), hyps, plain=hyps)
    zero = z3.IntVal(0)
    v.check('%s (induction): first' % name, a(zero) <= b(zero), [], plain=sum_def(f, zero) + sum_def(g, zero))
    v.check('%s (induction): next' % name, z3.Implies(z3.And(k >= 0, a(k) <= b(k), f(k) <= g(k)), a(k + 1) <= b(k + 1)), hyps, plain=sum_def(f, k) + sum_def(g, k))
    return z3.Implies(num(n) >= 0, a(n) <= b(n))


def sum_def(f, k):
    """instances of the definition of the sum of f(0), ..., f(m - 1)"""
    zero = z3.IntVal(0)
    return [mk_sum(f, zero) == 0, z3.Implies(k >= 0, mk_sum(f, k + 1) == mk_sum(f, k) + f(k))]


def sums_equal(v, name, f, g, n, hyps):
    i = fresh('i')
    v.check('%s: each term' % name, z3.Implies(z3.And(i >= 0, i < num(n)), f(i) == g(i)), hyps)
    return mk_sum(f, n) == mk_sum(g, n)


def nonneg(v, name, f, n, hyps, at=None):
    k = fresh('k')
    zero = z3.IntVal(0)
    hy = [z3.substitute(h, (at, k)) for h in hyps] if at is not None else hyps
    v.check('%s is not negative: each term' % name, f(k) >= 0, hy, plain=hy)
    v.check('%s is not negative (induction): first' % name, mk_sum(f, zero) >= 0, [], plain=sum_def(f, zero))
    v.check('%s is not negative (induction): next' % name, z3.Implies(z3.And(k >= 0, mk_sum(f, k) >= 0, f(k) >= 0), mk_sum(f, k + 1) >= 0), [], plain=sum_def(f, k))


def concat_lemma(v, name, f, a, hyps):
    """f(0) + ... + f(a - 1) and f(a) + ... + f(a + b - 1), for every b (induction on b) -> instance for a length"""
    k = fresh('k')
    g = lambda j: f(a + j)
    zero = z3.IntVal(0)
    P = lambda b: mk_sum(f, a) + mk_sum(g, b) == mk_sum(f, a + b)
    v.check('lemma %s (induction): first' % name, P(zero), [], plain=sum_def(g, zero) + [same_length(f, a + zero, a)])
    v.check('lemma %s (induction): next' % name, z3.Implies(z3.And(k >= 0, P(k)), P(k + 1)), [],
            plain=list(hyps) + [a >= 0] + sum_def(g, k) + sum_def(f, a + k) + [same_length(f, a + (k + 1), (a + k) + 1)])
    return lambda b: z3.Implies(z3.And(a >= 0, b >= 0), P(b))


def same_length(f, n, m):
    return z3.Implies(n == m, mk_sum(f, n) == mk_sum(f, m))


def find_apps(e, name):
    """ground applications of the symbol inside e"""
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() == name:
                out.append(x)
            st.extend(x.children())
    return out


def prune(x, facts, ms=500, rounds=6, arms=False):
    """an equal term (given the facts): the conditional terms whose condition the facts decide are replaced by the branch
    taken"""
    def ites(e, seen, out):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            return
        for c in e.children():
            ites(c, seen, out)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            out.append(e)
    decided = {}
    for _ in range(rounds):
        x = z3.simplify(x)
        out = []
        ites(x, set(), out)
        sub = []
        for e in out:
            c = e.arg(0)
            if e.get_id() not in decided:
                ts = reductions(e) if arms else reductions(c)
                ab = [(t, z3.Const('red!%d' % t.get_id(), t.sort())) for t in sorted(ts, key=lambda t: -len(reductions(t)))]
                val = None
                for want in (True, False):
                    s = z3.Solver()
                    s.set('timeout', ms)
                    for f in list(facts) + [z3.Not(c) if want else c]:
                        s.add(z3.substitute(f, *ab) if ab else f)
                    if s.check() == z3.unsat:
                        val = want
                        break
                if val is None and e.sort() == z3.IntSort() and arms:
                    for want in (True, False):          # the other branch has the same value wherever it is taken
                        s = z3.Solver()
                        s.set('timeout', ms)
                        for f in list(facts) + [z3.Not(c) if want else c, e.arg(1) != e.arg(2)]:
                            s.add(z3.substitute(f, *ab) if ab else f)
                        if s.check() == z3.unsat:
                            val = want
                            break
                decided[e.get_id()] = (e, val)
            val = decided[e.get_id()][1]
            if val is not None:
                sub.append((e, e.arg(1) if val else e.arg(2)))
        if not sub:
            return x
        x = z3.substitute(x, *sub)
    return x
