"""Replay harness: the contracts of a property evaluated at run time against the real code on concrete inputs.

Used (1) to find and replay a failing input when an obligation fails, (2) as the labelled bounded stand-in for functions
the verifier does not reach.  Runs under /opt/venv python with the tree under test first on the path."""
import json, os, signal, sys, time, traceback
import numpy as np

CASES = {}


class Mismatch(Exception):
    pass


class CaseTimeout(Exception):
    pass


class Case:
    def __init__(self, prop, fn, quick, thorough, limit):
        self.prop, self.fn, self.quick, self.thorough, self.limit = prop, fn, quick, thorough, limit
        self.name = fn.__name__


def case(prop, quick=100, thorough=None, limit=60):
    def deco(fn):
        for p in (prop if isinstance(prop, (list, tuple)) else [prop]):
            CASES.setdefault(p, []).append(Case(p, fn, quick, thorough or quick * 15, limit))
        return fn
    return deco


def jsonable(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


class T:
    """one concrete case"""

    def __init__(self, seed, k, scratch):
        self.rng = np.random.RandomState((seed * 1000003 + k * 7919 + 17) % (2 ** 31 - 1))
        self.k = k
        self.inputs = {}
        self.nontrivial = True
        self.scratch = scratch

    def note(self, **kw):
        self.inputs.update(kw)

    def check(self, cond, msg, **kw):
        if not cond:
            self.inputs.update(kw)
            raise Mismatch(msg)

    def close(self, got, want, msg, tol=2e-5):
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        self.check(g.shape == w.shape, msg + ': shapes %s and %s' % (g.shape, w.shape), got=got, want=want)
        nan = np.isnan(g) & np.isnan(w)
        with np.errstate(invalid='ignore'):
            ok = nan | (g == w) | (np.abs(g - w) <= tol * np.maximum(1.0, np.abs(w)))
        self.check(bool(np.all(ok)), msg, got=got, want=want)

    def same(self, got, want, msg):
        g, w = np.asarray(got), np.asarray(want)
        self.check(g.shape == w.shape and bool(np.all((g == w) | ((g != g) & (w != w)))), msg, got=got, want=want)

    def raises(self, f, msg, types=Exception):
        try:
            f()
        except types:
            return
        except Exception as e:
            raise Mismatch(msg + ': raised %s' % type(e).__name__)
        raise Mismatch(msg + ': no error raised')

    def pick(self, *xs):
        return xs[self.rng.randint(len(xs))]


def run_case(c, seed, k, scratch, timeout=True):
    t = T(seed, k, scratch)
    np.random.seed((seed * 31 + k) % (2 ** 31))

    def onalarm(*a):
        raise CaseTimeout()
    try:
        if timeout:
            signal.signal(signal.SIGALRM, onalarm)
            signal.alarm(c.limit)
        c.fn(t)
        return t, None
    except Mismatch as e:
        return t, str(e)
    except CaseTimeout:
        return t, 'no result within %d s' % c.limit
    except Exception as e:
        tb = traceback.format_exc().strip().split('\n')
        return t, 'unexpected %s: %s [%s]' % (type(e).__name__, str(e)[:200], ' | '.join(x.strip() for x in tb[-5:-1])[-400:])
    finally:
        if timeout:
            signal.alarm(0)
