"""Units of verification: a function of /repo under contract, executed symbolically from its current source."""
import os, time, traceback, signal, multiprocessing
import z3
from .terms import *
from .values import *
from . import npmodel as N
from .interp import Ctx, Obligation
from .prover import Prover, STATS, Result, SCALE


class Unit:
    def __init__(self, prop, name, fn, thorough=False, weight=1):
        self.prop, self.name, self.fn, self.thorough, self.weight = prop, name, fn, thorough, weight


UNITS = []


def scale(k):
    SCALE[0] = k


def unit(prop, name, thorough=False, weight=1):
    def deco(fn):
        props = prop if isinstance(prop, (list, tuple)) else [prop]
        for p in props:
            UNITS.append(Unit(p, name, fn, thorough, weight))
        return fn
    return deco


class V:
    """interface of the contracts to the symbolic execution and the prover"""

    def __init__(self, root, overrides=None):
        self.root = root
        self.ctx = Ctx(root, overrides)
        self.prover = Prover()
        self.results = []
        self.functions = set()
        self.covered = None
        self.lacking = None

    # -- symbolic inputs ------------------------------------------------------------------------------------------
    def int(self, name, lo=None):
        v = z3.Int(name)
        if lo is not None:
            self.ctx.assume(v >= lo)
        return v

    def real(self, name):
        return z3.Real(name)

    def array(self, name, shape, dtype='float'):
        return N.sym_array(self.ctx, name, shape if isinstance(shape, tuple) else (shape,), dtype)

    def obj(self, cls, **attrs):
        return Obj(self.ctx, self.cls(cls), attrs)

    def cls(self, qual):
        m, c = qual.rsplit('.', 1)
        return self.ctx.module(m).get(c)

    def func(self, qual):
        m, f = qual.rsplit('.', 1)
        try:
            return self.ctx.module(m).get(f)
        except (Unsupported, KeyError):
            m2, c = m.rsplit('.', 1)
            cl = self.ctx.module(m2).get(c)
            f_, _ = cl.lookup(f)
            if f_ is None:
                raise Unsupported('function %s not found' % qual)
            return f_

    def new(self, cls, *args, **kw):
        """run the real constructor; a single path is expected"""
        ps = self.ctx.explore(lambda: self.ctx.call(self.cls(cls), list(args), kw))
        if len(ps) != 1 or ps[0].kind != 'normal':
            raise Unsupported('constructor of %s has %d outcomes' % (cls, len(ps)))
        # keep its effects
        return self.ctx.call(self.cls(cls), list(args), kw)

    # -- execution ------------------------------------------------------------------------------------------------
    def run(self, thunk):
        """all the paths; each carries .val, .perms, .hyps (facts to use in its goals)"""
        c = self.ctx
        c.obls = []
        base = list(c.pc)
        self.precondition(base)

        def go():
            c.perms = []
            c.ghost['selections'] = []
            c.ghost['unique_list'] = []
            c.ghost['trace'] = []
            c.ghost['draws'] = {}
            c.ghost['permutations'] = []
            c.ghost['members'] = []
            try:
                v = thunk()
            except PyExc as e:
                e.perms = list(c.perms)
                raise
            return (v, list(c.perms), dict(c.ghost, selections=list(c.ghost['selections']),
                                           unique_list=list(c.ghost['unique_list']), trace=list(c.ghost['trace']),
                                           permutations=list(c.ghost['permutations']), members=list(c.ghost['members'])))
        paths = c.explore(go)
        out = []
        for p in paths:
            if p.kind == 'normal':
                p.val, p.perms, p.ghost = p.val
            else:
                p.perms, p.ghost = [], {}
            p.hyps = c.axioms + base + list(p.facts)
            out.append(p)
        # obligations met during the execution (bounds, shapes, callee preconditions, loop invariants)
        seen, alive = set(), []
        for o in c.obls:
            whole = z3.And(*(o.hyps + [z3.Not(o.goal)]))
            alive.append(whole)          # identifiers of collected terms are reused
            key = (o.name, whole.get_id())
            if key in seen:
                continue
            seen.add(key)
            self.check(o.name + (' at ' + o.where if o.where else ''), o.goal, c.axioms + o.hyps)
        c.obls = []
        for q in c.executed:
            self.functions.add(q)
        return out

    def in_state(self, path, f):
        """evaluate f in the final state of a path"""
        c = self.ctx
        snap = c.snapshot()
        ids = {id(o) for o, _ in path.post}
        c.restore(path.post)
        try:
            return f()
        finally:
            c.restore(snap)

    def precondition(self, facts):
        fs = [f for f in facts if not z3.is_quantifier(f)]
        s = z3.Solver()
        s.set('timeout', 2000)
        for f in fs:
            s.add(f)
        r = s.check()
        if r == z3.unsat:
            self.results.append(dict(name='precondition satisfiable', status='failed', backend='z3', detail='the precondition is contradictory'))
        s = z3.Solver()
        s.set('timeout', 1000)
        for f in list(facts) + self.ctx.axioms:
            s.add(f)
        if s.check() == z3.unsat:
            self.results.append(dict(name='precondition satisfiable', status='failed', backend='z3', detail='the precondition is contradictory'))

    # -- obligations ---------------------------------------------------------------------------------------------------
    def check(self, name, goal, hyps, hints=(), plain=None):
        t = time.time()
        r = self.prover.plain(list(plain), goal) if plain is not None else None
        if not r:
            r = self.prover.prove(list(hyps), goal, hints=hints)
        if not r and self.ctx.missing and any(n.startswith(tuple(self.ctx.missing)) for f in [goal] + list(hyps) for n in names_of(f)):
            # it may be the contract that lacks an invariant for a local variable
            self.lacking = 'no inductive value for a local variable of a loop (%s)' % ', '.join(sorted(x[2:-1] for x in self.ctx.missing))
            r.status = 'unknown'
        self.results.append(dict(name=name, status=r.status, backend=r.backend, detail=r.detail[:1500],
                                 s=round(time.time() - t, 3)))
        return r

    def induct(self, name, n, P, hyps, pattern=None):
        """lemma by strong induction: for all k in [0, n): P(k). -> the lemma (to be used as a hypothesis)"""
        k, j = fresh('k'), fresh('j')
        pats = [pattern(j)] if pattern else []
        ih = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), P(j)), patterns=pats)
        self.check('lemma (induction): ' + name, P(k), list(hyps) + [k >= 0, k < num(n), ih])
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < num(n)), P(j)), patterns=pats)

    def check_any(self, name, alternatives):
        """alternatives: list of (label, [(goal, hyps, hints)]); the obligation holds when one of them is proved"""
        t = time.time()
        worst = None
        for quick in (True, False):       # a cheap pass over the witnesses first
            for label, goals in alternatives:
                ok, bk = True, set()
                rr = None
                for gi, g_ in enumerate(goals):
                    goal, hyps, hints = g_[:3]
                    rr = None
                    if len(g_) > 3:          # a smaller set of hypotheses that is expected to suffice
                        rr = self.prover.prove(list(g_[3]), goal, hints=hints, quick=True)
                    if not rr:
                        rr = self.prover.prove(list(hyps), goal, hints=hints, quick=quick)
                    if not rr:
                        ok = False
                        break
                    bk.add(rr.backend)
                if ok:
                    self.results.append(dict(name=name, status='proved', backend='+'.join(sorted(bk)), detail='witness: ' + label,
                                             s=round(time.time() - t, 3)))
                    return True
                if not quick and (worst is None or gi > worst[2]):
                    worst = (label + ' (part %d of %d)' % (gi + 1, len(goals)), rr, gi)
        d = worst[1] if worst else Result('unknown', '', 'no witness available')
        self.results.append(dict(name=name, status=d.status, backend=d.backend, detail=(worst[0] if worst else '') + ': ' + d.detail[:1500],
                                 s=round(time.time() - t, 3)))
        return False

    def fail(self, name, detail):
        self.results.append(dict(name=name, status='failed', backend='symbolic execution', detail=detail))

    def feasible_path(self, p):
        """is the path condition satisfiable together with the hypotheses? (refuted only by unsat)"""
        s = z3.Solver()
        s.set('timeout', 3000)
        for f in p.hyps:
            s.add(f)
        return s.check() != z3.unsat


def run_unit(u, root, timeout):
    t0 = time.time()
    STATS.__init__()
    v = V(root)
    out = dict(unit=u.name, prop=u.prop)

    def onalarm(*a):
        raise TimeoutError('unit time limit')
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(timeout))
    try:
        u.fn(v)
        out['status'] = 'done'
        if v.lacking:
            out['status'], out['why'] = 'unsupported', v.lacking
    except Unsupported as e:
        out['status'], out['why'] = 'unsupported', str(e)
        out['tb'] = traceback.format_exc()[-1500:]
    except TimeoutError as e:
        out['status'], out['why'] = 'timeout', str(e)
    except PyExc as e:
        out['status'], out['why'] = 'unsupported', 'exception outside the contract: %s %s' % (e.cls, e.val)
        out['tb'] = traceback.format_exc()[-1500:]
    except Exception as e:
        if time.time() - t0 >= timeout - 0.5:
            out['status'], out['why'] = 'timeout', 'unit time limit'
        else:
            out['status'], out['why'] = 'unsupported', 'verifier: %s %s' % (type(e).__name__, str(e)[:300])
        out['tb'] = traceback.format_exc()[-1800:]
    finally:
        signal.alarm(0)
    out['results'] = v.results
    out['functions'] = sorted(v.functions | set(v.ctx.executed))
    out['externs'] = sorted(v.ctx.used_externs)
    out['contracts_used'] = sorted({c for c in v.ctx.calls if c.startswith('rankeval')})
    out['solver_s'] = round(STATS.solver_s, 3)
    out['queries'] = STATS.queries
    out['wall_s'] = round(time.time() - t0, 2)
    return out


def _worker(args):
    k, root, timeout = args
    return run_unit(UNITS[k], root, timeout)


def run_units(ids, root, timeout=120, procs=8):
    ids = sorted(ids, key=lambda k: -UNITS[k].weight)
    jobs = [(k, root, timeout) for k in ids]
    if procs <= 1 or len(jobs) <= 1:
        return [_worker(j) for j in jobs]
    with multiprocessing.get_context('fork').Pool(min(procs, len(jobs)), maxtasksperchild=1) as pool:
        return pool.map(_worker, jobs, chunksize=1)
