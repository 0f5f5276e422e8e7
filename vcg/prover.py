"""Discharges verification conditions: goal splitting, lemma schemata for the reduction symbols, then z3 (cvc5 second).

The lemma schemata instantiated here are theorems about finite sums, products, searches and maxima over integer ranges;
they are stated and proved in Lean in /verif/lemmas/Schemata.lean (vcg/lean.py has Lean check them on every run).
"""
import os, subprocess, tempfile, time
import z3
from .terms import *


class Stats:
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.by_backend = {}


STATS = Stats()
Z3_TIMEOUT_MS = int(os.environ.get('VCG_Z3_MS', '8000'))
QUICK_MS = 1500


SCALE = [1]
RATE = 2500          # resource units per millisecond (about what an idle machine spends)


def _check(fs, timeout, quick=False, opts=None):
    s = z3.Solver()
    s.set('rlimit', timeout * SCALE[0] * RATE)       # the answer must not depend on the load of the machine
    s.set('timeout', 3 * timeout * SCALE[0])
    if quick:
        s.set('auto_config', False)
        s.set('smt.mbqi', False)     # instantiation by patterns only: a negative answer comes fast
    s.set('random_seed', 1)
    for k, v in (opts or {}).items():
        s.set(k, v)
    for f in fs:
        s.add(f)
    t = time.time()
    r = s.check()
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    return r, s


def _cvc5(smt2, timeout_s):
    exe = '/usr/bin/cvc5'
    import shutil
    exe = shutil.which('cvc5')
    if not exe:
        return 'unknown'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt2)
    t = time.time()
    try:
        p = subprocess.run([exe, '--tlimit=%d' % int(timeout_s * 1000), f.name], capture_output=True, text=True,
                           timeout=timeout_s + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
    except Exception:
        out = 'unknown'
    finally:
        os.unlink(f.name)
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    return out


class Result:
    def __init__(self, status, backend='', detail='', model=None):
        self.status, self.backend, self.detail, self.model = status, backend, detail, model

    def __bool__(self):
        return self.status == 'proved'

    def __repr__(self):
        return 'Result(%s,%s,%s)' % (self.status, self.backend, self.detail[:200])


def split_goal(hyps, goal):
    """-> list of (hyps, atomic goal)"""
    if z3.is_true(goal):
        return []
    if z3.is_and(goal):
        out = []
        for c in goal.children():
            out += split_goal(hyps, c)
        return out
    if z3.is_implies(goal):
        return split_goal(hyps + [goal.arg(0)], goal.arg(1))
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [fresh('sk_' + goal.var_name(i), goal.var_sort(i)) for i in range(goal.num_vars())]
        body = z3.substitute_vars(goal.body(), *reversed(vs))
        return split_goal(hyps, body)
    return [(hyps, goal)]


def flatten(hyps):
    out = []
    for h in hyps:
        if z3.is_and(h):
            out += flatten(h.children())
        elif z3.is_true(h):
            pass
        else:
            out.append(h)
    return out


class Prover:
    def __init__(self, timeout_ms=None, max_depth=4):
        self.timeout = timeout_ms or Z3_TIMEOUT_MS
        self.max_depth = max_depth
        self.cache = {}

    # -- entry ---------------------------------------------------------------------------------------------------
    def prove(self, hyps, goal, hints=(), depth=0, quick=False):
        worst = Result('proved', 'trivial')
        backends = set()
        goal = boolean(goal)
        for hs, g in split_goal(list(hyps) + list(hints), goal):
            r = self._prove_atom(flatten(hs), g, depth, quick)
            if not r and depth == 0 and not quick:
                r = self._split(hs, g, r, 3)
            if not r:
                r.detail = r.detail or str(z3.simplify(g))[:400]
                return r
            backends.add(r.backend)
        worst.backend = '+'.join(sorted(b for b in backends if b)) or 'trivial'
        return worst

    def direct(self, hyps, goal, ms=200):
        """a cheap attempt: the reduction terms are constants and the hypotheses that quantify over them are left out"""
        key = ('direct', goal.get_id(), tuple(h.get_id() for h in hyps))
        hit = self.cache.get(key)
        if hit is not None and hit[0].eq(goal):
            return hit[1]
        fs = [f for f in hyps if not (z3.is_quantifier(f) and inner_lambda(f))] + [z3.Not(goal)]
        ts = {t.get_id(): t for e in fs for t in reductions(e)}
        ab = [(t, z3.Const('red!%d' % t.get_id(), t.sort())) for t in sorted(ts.values(), key=lambda t: -len(reductions(t)))]
        r, s = _check([z3.substitute(f, *ab) for f in fs] if ab else fs, ms, True)
        self.cache[key] = (goal, r == z3.unsat, hyps)
        return r == z3.unsat

    def plain(self, hyps, goal, ms=6000):
        """without any lemma about the reduction terms, which are constants"""
        backends = set()
        for hs, g in split_goal(list(hyps), boolean(goal)):
            fs = [z3.simplify(f) for f in flatten(hs) + [z3.Not(g)]]
            ts = {t.get_id(): t for e in fs for t in reductions(e)}
            ab = [(t, z3.Const('red!%d' % t.get_id(), t.sort())) for t in sorted(ts.values(), key=lambda t: -len(reductions(t)))]
            fs = [z3.substitute(f, *ab) if ab else f for f in fs]
            r, s = _check(fs + elementary(fs), ms, True)
            if r != z3.unsat:
                r, s = _check(fs + elementary(fs), ms)
            if r != z3.unsat:
                return Result('unknown', 'z3', 'not proved from the lemmas given: ' + str(z3.simplify(g))[:900])
            backends.add('z3')
        return Result('proved', '+'.join(sorted(backends)) or 'trivial')

    def _split(self, hs, g, r, level):
        """case distinction on the condition of an if-then-else of the goal that selects between reductions"""
        cond = guard(z3.simplify(g))
        if cond is None or level == 0:
            return r
        backends = set()
        for c in (cond, z3.Not(cond)):
            val = z3.BoolVal(c is cond)
            g2 = z3.simplify(z3.substitute(z3.simplify(g), (cond, val)))
            hs2 = flatten(list(hs) + [c])
            q = self._prove_atom(hs2, g2, 0, False)
            if not q:
                q = self._split(hs2, g2, q, level - 1)
            if not q:
                return q
            backends.add(q.backend)
        return Result('proved', '+'.join(sorted(backends)))

    def _prove_atom(self, hyps, goal, depth, quick):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return Result('proved', 'simplifier')
        # split an if-then-else / disjunction free equality of reductions by lemmas
        if depth == 0:
            # first without any lemma about the reduction terms, which are then constants
            ts = {t.get_id(): t for e in list(hyps) + [goal] for t in reductions(e)}
            ab = [(t, z3.Const('red!%d' % t.get_id(), t.sort())) for t in sorted(ts.values(), key=lambda t: -len(reductions(t)))]
            fs = [z3.substitute(f, *ab) if ab else f for f in list(hyps) + [z3.Not(goal)]]
            r, s = _check(fs, 400, True)
            if r == z3.unsat:
                return Result('proved', 'z3')
        hyps = self._instances(hyps, goal)
        lemmas, abst = self._lemmas(hyps, goal, depth)
        fs = hyps + lemmas + elementary(hyps + lemmas + [goal]) + [z3.Not(goal)]
        if abst:
            fs = [z3.substitute(f, *abst) for f in fs]
        r, s = _check(fs, QUICK_MS if quick else 4000, True)
        if r == z3.unsat:
            return Result('proved', 'z3')
        if r == z3.sat:
            return Result('failed', 'z3', model=s.model(), detail='refuted: ' + str(g)[:900])
        why = s.reason_unknown()
        if quick:
            return Result('unknown', 'z3', 'z3: ' + why)
        saturated = 'incomplete' in why
        # other strategies: model-based instantiation, other arithmetic, then cvc5
        tmo = 3000 if saturated else self.timeout
        r, s1 = _check(fs, tmo)
        if r == z3.unsat:
            return Result('proved', 'z3')
        if r == z3.sat:
            return Result('failed', 'z3', model=s1.model(), detail='refuted: ' + str(g)[:900])
        if not saturated:
            r, s2 = _check(fs, tmo, True, {'smt.arith.solver': 2})
            if r == z3.unsat:
                return Result('proved', 'z3')
            saturated = r == z3.unknown and 'incomplete' in s2.reason_unknown()
        out = _cvc5(s.to_smt2(), tmo * SCALE[0] / 1000.0)
        if out == 'unsat':
            return Result('proved', 'cvc5')
        if out == 'sat':
            return Result('failed', 'cvc5', detail='refuted: ' + str(g)[:900])
        if saturated:
            return Result('failed', 'z3', 'not provable (all relevant instances used): ' + str(g)[:900])
        return Result('unknown', 'z3', 'not proved (%s): %s' % (why, str(g)[:900]))

    # -- quantified hypotheses about reduction terms: instances at the ground terms that match their pattern ---------------
    def _instances(self, hyps, goal):
        qs = [h for h in hyps if z3.is_quantifier(h) and h.is_forall() and h.num_patterns() and inner_lambda(h)]
        if not qs:
            return hyps
        out = list(hyps)
        seen = set()
        apps = None
        for q in qs:
            pat = q.pattern(0)
            if pat.num_args() != 1:
                continue
            pt, nv = pat.arg(0), q.num_vars()
            idx = [z3.get_var_index(c) if z3.is_var(c) else None for c in pt.children()]
            if nv > 3 or sorted(k for k in idx if k is not None) != list(range(nv)) or nv != len(idx):
                continue
            if apps is None:
                apps = ground_apps([goal] + [h for h in hyps if not z3.is_quantifier(h)])
            for t in apps.get(pt.decl().name(), []):
                inst = z3.substitute_vars(q.body(), *[t.arg(idx.index(k)) for k in range(nv)])
                if inst.get_id() not in seen:
                    seen.add(inst.get_id())
                    out.append(inst)
        return flatten(out)

    # -- lemma schemata -------------------------------------------------------------------------------------------
    def _lemmas(self, hyps, goal, depth):
        terms, seen = [], set()
        for e in [goal] + hyps:
            if z3.is_quantifier(e):
                continue_terms = reductions(e)
            else:
                continue_terms = reductions(e)
            for t in continue_terms:
                if t.get_id() not in seen:
                    seen.add(t.get_id())
                    terms.append(t)
        if not terms:
            return [], []
        lem = []
        if depth == 0:
            self.points = int_consts(goal)
        goal_ids = {t.get_id() for t in reductions(goal)}
        first = len(terms)
        done, rnd = 0, 0
        eqs = []
        while done < len(terms) and rnd < (3 if depth == 0 else 1):
            upto = len(terms)
            new = []
            for t in terms[done:]:
                new += self._unary(hyps, t, depth)
            if depth < self.max_depth:
                for b in range(done, upto):
                    for a in range(b):
                        t, u = terms[a], terms[b]
                        if {t.decl().name(), u.decl().name()} == {'SUM', 'SUMI'}:
                            new += self._cast_pair(hyps, t, u, depth)
                            continue
                        if not t.decl().eq(u.decl()):
                            continue
                        if depth > 0 and a < first and b < first and not (t.get_id() in goal_ids or u.get_id() in goal_ids):
                            continue
                        got = self._binary(hyps + eqs, t, u, depth)
                        new += got
                        eqs += [q for q in got if z3.is_eq(q) and q.arg(0).eq(t) and q.arg(1).eq(u) and t.decl().name() not in REDUCTIONS]
            lem += new
            done = upto
            rnd += 1
            for e in new:            # reduction terms that the lemmas brought in
                if z3.is_quantifier(e):
                    continue
                for t in reductions(e):
                    if t.get_id() not in seen and len(terms) < 40:
                        seen.add(t.get_id())
                        terms.append(t)
            terms[done:] = sorted(terms[done:], key=lambda t: len(reductions(t)))
        # abstraction of the reduction terms by constants (outermost terms are matched first by substitute)
        abst = [(t, z3.Const('red!%d' % t.get_id(), t.sort())) for t in sorted(terms, key=lambda t: -len(reductions(t)))]
        return lem, abst

    def _quick(self, hyps, goal, depth):
        """cheap proof attempt; only used to decide whether a lemma instance applies"""
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        key = (goal.get_id(), depth, tuple(h.get_id() for h in hyps))
        hit = self.cache.get(key)
        if hit is not None and hit[0].eq(goal):
            return hit[1]
        r = bool(self.prove(hyps, goal, depth=depth + 1, quick=True))
        self.cache[key] = (goal, r, hyps)
        return r

    def _rng(self, n):
        j = fresh('k')
        return j, [j >= 0, j < n]

    def _unary(self, hyps, t, depth):
        nm = t.decl().name()
        out = []
        if nm not in REDUCTIONS:
            return out
        f, n = t.arg(0), t.arg(1)
        if nm in ('SUM', 'SUMI'):
            out.append(z3.Implies(n <= 0, t == 0))
            if z3.is_int_value(n) and 1 <= n.as_long() <= 4:
                out.append(t == z3.Sum([apply_lam(f, z3.IntVal(x)) for x in range(n.as_long())]))
            j, rg = self._rng(n)
            b = z3.simplify(apply_lam(f, j))
            if not occurs(j, b):
                nn = to_real(n) if nm == 'SUM' else n
                out.append(z3.Implies(n >= 0, t == b * nn))
            elif depth < 2:
                if self._quick(hyps + rg, b >= 0, depth + 1):
                    out.append(t >= 0)
                if depth == 0 and self._quick(hyps + rg, b <= 1, depth + 1):
                    out.append(z3.Implies(n >= 0, t <= (to_real(n) if nm == 'SUM' else n)))
        elif nm == 'PROD':
            out.append(z3.Implies(n <= 0, t == 1))
        elif nm == 'FIRST':
            j = fresh('k')
            out += [t >= 0, z3.Implies(n >= 0, t <= n), z3.Implies(n <= 0, t == 0),
                    z3.Implies(t < n, apply_lam(f, t)),
                    z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < t), z3.Not(apply_lam(f, j))))]
        elif nm == 'LAST':
            j = fresh('k')
            out += [t >= -1, z3.Implies(n >= 0, t < n), z3.Implies(n <= 0, t == -1),
                    z3.Implies(t >= 0, apply_lam(f, t)),
                    z3.ForAll([j], z3.Implies(z3.And(j > t, j < n, j >= 0), z3.Not(apply_lam(f, j))))]
        elif nm in ('MAXR', 'MAXI', 'MINR', 'MINI'):
            j, w = fresh('k'), z3.Const('w!%d' % t.get_id(), I)
            cmp = (lambda a, b: a <= b) if nm.startswith('MAX') else (lambda a, b: a >= b)
            out += [z3.Implies(n >= 1, z3.And(w >= 0, w < n, t == apply_lam(f, w))),
                    z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), cmp(apply_lam(f, j), t)))]
        elif nm == 'EXISTS':
            j, w = fresh('k'), z3.Const('w!%d' % t.get_id(), I)
            out += [z3.Implies(t, z3.And(w >= 0, w < n, apply_lam(f, w))),
                    z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, apply_lam(f, j)), t))]
            if depth == 0:      # instances at the variables of the goal (the body may contain reductions itself)
                out += [z3.Implies(z3.And(c >= 0, c < n, apply_lam(f, c)), t) for c in self.points]
                out.append(z3.Implies(t, apply_lam(f, w)))
        return out

    def _binary(self, hyps, t, u, depth):
        nm = t.decl().name()
        out = []
        if nm not in REDUCTIONS:
            return self._opaque_pair(hyps, t, u, depth)
        f, n, g, m = t.arg(0), t.arg(1), u.arg(0), u.arg(1)
        j = fresh('k')
        fj, gj = apply_lam(f, j), apply_lam(g, j)
        eq_n = self._quick(hyps, n == m, depth)
        if eq_n:
            if self._quick(hyps + [j >= 0, j < n], fj == gj, depth):
                return [t == u]
            if nm in ('SUM', 'SUMI') and depth == 0:
                if self._quick(hyps + [j >= 0, j < n], fj <= gj, depth + 1):
                    out.append(t <= u)
                elif self._quick(hyps + [j >= 0, j < n], gj <= fj, depth + 1):
                    out.append(u <= t)
            return out
        if nm in ('SUM', 'SUMI', 'PROD', 'LAST', 'FIRST'):
            op = (lambda a, b: a * b) if nm == 'PROD' else (lambda a, b: a + b)
            for (t1, n1, u1, m1, f1, g1) in ((t, n, u, m, f, g), (u, m, t, n, g, f)):
                # t1 has one element more than u1
                if self._quick(hyps, z3.And(n1 == m1 + 1, m1 >= 0), depth):
                    if self._quick(hyps + [j >= 0, j < m1], apply_lam(f1, j) == apply_lam(g1, j), depth):
                        last = apply_lam(f1, m1)
                        if nm in ('SUM', 'SUMI', 'PROD'):
                            out.append(t1 == op(u1, last))
                        elif nm == 'LAST':
                            out.append(t1 == z3.If(last, m1, u1))
                        else:
                            out.append(t1 == z3.If(u1 < m1, u1, z3.If(last, m1, n1)))
                    return out
        if nm in ('SUM', 'SUMI') and depth == 0:
            # a longer sum of non-negative terms is not smaller
            for (t1, n1, u1, m1, f1, g1) in ((t, n, u, m, f, g), (u, m, t, n, g, f)):
                if self._quick(hyps, m1 <= n1, depth):
                    if self._quick(hyps + [j >= 0, j < n1], apply_lam(f1, j) >= 0, depth) and \
                            self._quick(hyps + [j >= 0, j < m1], apply_lam(f1, j) >= apply_lam(g1, j), depth):
                        out.append(t1 >= u1)
                    return out
        return out

    def _cast_pair(self, hyps, t, u, depth):
        if t.decl().name() != 'SUM':
            t, u = u, t
        j = fresh('k')
        if depth < 1 and self._quick(hyps, t.arg(1) == u.arg(1), depth) and \
                self._quick(hyps + [j >= 0, j < u.arg(1)], apply_lam(t.arg(0), j) == to_real(apply_lam(u.arg(0), j)), depth):
            return [t == z3.ToReal(u)]
        return []

    def _opaque_pair(self, hyps, t, u, depth):
        conds = []
        args = list(zip(t.children(), u.children()))
        k = 0
        while k < len(args):
            a, b = args[k]
            if z3.is_quantifier(a) or z3.is_quantifier(b):
                nv = a.num_vars() if z3.is_quantifier(a) else b.num_vars()
                dims = args[k + 1:k + 1 + nv]
                for (x, y) in dims:
                    if not self._quick(hyps, x == y, depth):
                        return []
                js = [fresh('k') for _ in range(nv)]
                rg = []
                for jj, (x, y) in zip(js, dims):
                    rg += [jj >= 0, jj < x]
                fa = app_multi(a, js)
                fb = app_multi(b, js)
                if not self._quick(hyps + rg, fa == fb, depth):
                    return []
                k += 1 + nv
            else:
                if not self._quick(hyps, a == b, depth):
                    return []
                k += 1
        return [t == u]


def int_consts(e):
    """skolem constants of the goal"""
    return [z3.Int(n) for n in sorted(names_of(e)) if n.startswith('sk_')][:6]


def guard(e):
    """an if-then-else condition without reductions and bound variables whose branches contain reductions"""
    seen = set()

    def go(x):
        if x.get_id() in seen or not z3.is_app(x):
            return None
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE and not reductions(x.arg(0)) and (reductions(x.arg(1)) or reductions(x.arg(2))) \
                and not has_var(x.arg(0)):
            return x.arg(0)
        for c in x.children():
            r = go(c)
            if r is not None:
                return r
        return None
    return go(e)


_il_cache = {}


def inner_lambda(q):
    hit = _il_cache.get(q.get_id())
    if hit is not None and hit[0].eq(q):
        return hit[1]
    st, seen, r = [q.body()], set(), False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if x.is_lambda():
                r = True
                break
            st.append(x.body())
        else:
            st.extend(x.children())
    _il_cache[q.get_id()] = (q, r)
    return r


def ground_apps(es):
    out, seen = {}, set()
    st = list(es)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                out.setdefault(x.decl().name(), []).append(x)
            st.extend(x.children())
    return out


def app_multi(l, js):
    if z3.is_quantifier(l) and l.is_lambda():
        return z3.substitute_vars(l.body(), *reversed(js))
    return z3.Select(l, *js)


def occurs(c, e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


_x, _y = z3.Reals('el!x el!y')
_n, _m = z3.Ints('el!n el!m')


def elementary(fs):
    """axioms of the elementary functions that occur"""
    names = set()
    for f in fs:
        names |= names_of(f)
    out = []
    if 'EXP2' in names:
        out += [z3.ForAll([_x], EXP2(_x) > 0, patterns=[EXP2(_x)]), EXP2(z3.RealVal(0)) == 1,
                z3.ForAll([_x, _y], z3.Implies(_x < _y, EXP2(_x) < EXP2(_y)), patterns=[z3.MultiPattern(EXP2(_x), EXP2(_y))])]
    if 'LOG2' in names:
        out += [LOG2(z3.RealVal(1)) == 0, LOG2(z3.RealVal(2)) == 1,
                z3.ForAll([_x, _y], z3.Implies(z3.And(0 < _x, _x < _y), LOG2(_x) < LOG2(_y)), patterns=[z3.MultiPattern(LOG2(_x), LOG2(_y))])]
    if 'SQRT' in names:
        out += [z3.ForAll([_x], z3.Implies(_x >= 0, z3.And(SQRT(_x) >= 0, SQRT(_x) * SQRT(_x) == _x)), patterns=[SQRT(_x)])]
    if 'POW' in names:
        out += [z3.ForAll([_x], POW(_x, z3.IntVal(0)) == 1, patterns=[POW(_x, z3.IntVal(0))]),
                z3.ForAll([_x, _n], z3.Implies(z3.And(_n >= 0, _x >= 0), POW(_x, _n) >= 0), patterns=[POW(_x, _n)]),
                z3.ForAll([_x, _n], z3.Implies(z3.And(_n >= 0, _x >= 0, _x <= 1), POW(_x, _n) <= 1), patterns=[POW(_x, _n)])]
    if 'ROUND' in names:
        f = opaque('ROUND', R, I)
        out += [z3.ForAll([_x], z3.And(z3.ToReal(f(_x)) - _x <= z3.Q(1, 2), _x - z3.ToReal(f(_x)) <= z3.Q(1, 2)), patterns=[f(_x)])]
    return out
