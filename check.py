#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property for /repo's current working tree.

1. copies the tree to a scratch directory and builds its extensions there;
2. generates the verification conditions of the functions under contract from the current source and discharges them;
3. evaluates the contracts on concrete inputs against the built tree (replay; bounded stand-in for the functions out of reach);
4. writes evidence/<property>.json and reports."""
import glob, hashlib, importlib, json, os, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('RANKEVAL_REPO', '/repo')
PY = '/opt/venv/bin/python'


def build(tree, log):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--inplace', '-j4'], cwd=tree, env=env, capture_output=True,
                       text=True, timeout=420)
    log['build_rc'], log['build_err'] = p.returncode, (p.stdout + p.stderr)[-3000:]


def run_replay(tree, prop, tier, seed, budget, out, least=0):
    env = dict(os.environ, PYTHONPATH=tree + ':/opt/vp/compat', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0', OMP_NUM_THREADS='4', OPENBLAS_NUM_THREADS='2', HOME=os.path.dirname(out), TMPDIR=os.path.dirname(out))
    try:
        p = subprocess.run([PY, os.path.join(HERE, 'replay', 'run.py'), prop, tier, str(seed), str(budget), out, str(least)], cwd=os.path.dirname(out),
                           env=env, capture_output=True, text=True, timeout=budget + least + 200)
        rc, err = p.returncode, p.stderr[-3000:] + p.stdout[-500:]
    except subprocess.TimeoutExpired:
        rc, err = 'timeout', ''
    res = None
    if os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
    prog = ''
    if os.path.exists(out + '.progress'):
        prog = open(out + '.progress').read().strip()
    return res, rc, err, prog


def main():
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='rankeval-check-')
    try:
        rc = decide(prop, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, seed, t0, work):
    tree = os.path.join(work, 'repo')
    shutil.copytree(REPO, tree, ignore=shutil.ignore_patterns('.git', 'build', '*.so', '*.pyc', '__pycache__', '.pytest_cache'))
    log = {}
    bt = threading.Thread(target=build, args=(tree, log))
    bt.start()
    # -- deductive part: the source is read from the scratch copy of the current tree
    from vcg import harness
    for f in sorted(glob.glob(os.path.join(HERE, 'contracts', '*.py'))):
        m = os.path.basename(f)[:-3]
        if m != '__init__':
            importlib.import_module('contracts.' + m)
    ids = [k for k, u in enumerate(harness.UNITS) if u.prop == prop and (tier == 'thorough' or not u.thorough)]
    bt.join()
    if log.get('build_rc') != 0:
        print('the tree does not build:\n' + log.get('build_err', ''))
        return 3
    # -- replay (runs beside the proofs)
    out = os.path.join(work, 'replay.json')
    rep = {}

    def replay():
        rep['r'] = run_replay(tree, prop, tier, seed, 60 if tier == 'quick' else 400, out, 20 if tier == 'quick' else 400)
    rt = threading.Thread(target=replay)
    rt.start()
    results = harness.run_units(ids, tree, timeout=150 if tier == 'quick' else 600, procs=8 if tier != 'quick' else 7) if ids else []
    rt.join()
    res, rc, err, prog = rep['r']
    # solver limits: a unit with undecided obligations is tried again on its own with four times the limits
    for n, o in enumerate(results):
        if any(r['status'] == 'unknown' for r in o['results']) and o['status'] == 'done' and time.time() - t0 < 420 and not (res and res['violations']):
            harness.scale(4)
            results[n] = harness.run_units([ids[n]], tree, timeout=200, procs=2)[0]
            harness.scale(1)
    extra = extra_steps(prop, tier, tree)
    obls = [dict(r, unit=o['unit']) for o in results for r in o['results']]
    reach = [o for o in results if o['status'] != 'done']
    out_of_reach = {o['unit'] for o in reach}
    # an obligation which is refuted, or which is not proved although its unit was executed completely, has failed
    failed = [r for r in obls if r['status'] == 'failed' or (r['status'] != 'proved' and r['unit'] not in out_of_reach)]
    undecided = [r for r in obls if r['status'] not in ('proved', 'failed') and r['unit'] in out_of_reach]
    if (failed or undecided or reach) and res is not None and not res['violations']:
        # look longer for a failing input when a proof does not go through
        os.remove(out)
        more = run_replay(tree, prop, tier, seed + 1, 60 if tier == 'quick' else 400, out, 60)
        if more[0] is not None:
            for k in ('evaluations', 'nontrivial'):
                more[0][k] += res[k]
            more[0]['samples'] = (res['samples'] + more[0]['samples'])[:3]
            res = more[0]
        elif more[1] == 'timeout' or (isinstance(more[1], int) and more[1] < 0):
            res, rc, err, prog = more
    violations, known = [], []
    kf = known_findings(prop)
    if res is None:
        if rc == 'timeout' or (isinstance(rc, int) and rc < 0):
            violations.append({'what': 'the code under test %s while executing case "%s"' % ('did not return' if rc == 'timeout' else 'crashed (signal %s)' % -rc, prog),
                               'case': prog, 'inputs': {}})
            res = {'evaluations': 0, 'nontrivial': 0, 'samples': [], 'violations': []}
        else:
            print('replay harness failed (rc %s): %s' % (rc, err))
            if 'import' in err.lower() and 'rankeval' in err:
                return 3
            return 3
    for v in res['violations']:
        hit = [k for k in kf if k.get('match') and k['match'] in v['what'] and (not k.get('case') or k['case'] == v['case'])]
        (known if hit else violations).append(dict(v, finding=hit[0]['id'] if hit else None))
    for k in kf:
        if not k.get('fixed'):
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    proved = [r for r in obls if r['status'] == 'proved']
    n_obl = len(obls)
    # -- vacuity
    claimed = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = next((c['level'] for c in claimed['checks'] if c['property'] == prop), 'other')
    rdir = os.path.join(HERE, 'out')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, '%s-%d.json' % (prop, os.getpid()))
    code = 0
    if violations or failed:
        with open(rpath, 'w') as f:
            json.dump({'property': prop, 'failed_obligations': failed, 'undecided': undecided,
                       'not_reached': [{k: o.get(k) for k in ('unit', 'status', 'why')} for o in reach],
                       'violations': violations,
                       'rerun': 'PYTHONPATH=<built tree>:/opt/vp/compat %s %s/replay/run.py --case %s <case> <seed> <k>' % (PY, HERE, prop)}, f, indent=1)
    if violations:
        for v in violations[:3]:
            print('  input: %s: %s %s' % (v['case'], v['what'], json.dumps(v['inputs'])[:600]))
        for r in failed[:5]:
            print('  failed obligation: %s / %s' % (r['unit'], r['name']))
        print('VIOLATION property=%s replay=%s' % (prop, rpath))
        code = 1
    elif failed:
        for r in failed[:5]:
            print('  failed obligation: %s / %s: %s' % (r['unit'], r['name'], r['detail'][:400]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rpath))
        code = 1
    elif n_obl == 0 and ids and not reach:
        print('no obligations were generated')
        code = 4
    elif res['evaluations'] == 0 and n_obl == 0:
        print('nothing was checked')
        code = 4
    functions = sorted({f for o in results for f in o['functions']})
    for r in undecided:
        print('  undecided obligation (bounded stand-in used): %s / %s: %s' % (r['unit'], r['name'], r['detail'][:200]))
    for o in reach:
        print('  not reached (bounded stand-in used): %s: %s %s' % (o['unit'], o['status'], o.get('why', '')))
    backends = {}
    for r in proved:
        backends[r['backend']] = backends.get(r['backend'], 0) + 1
    cov = {
        'obligations': n_obl, 'discharged': len(proved),
        'checker_cmd': '/opt/veriftools python3-vt vcg (z3 %s, cvc5) via ./check.sh %s %s' % (z3v(), prop, tier),
        'trusted_base': TRUSTED + ['assumed contract: ' + e for e in sorted({x for o in results for x in o['externs']})],
        'functions_under_contract': functions,
        'contracts_applied_at_calls': sorted({c for o in results for c in o['contracts_used']}),
        'units': [{k: o.get(k) for k in ('unit', 'status', 'why', 'wall_s', 'solver_s', 'queries')} | {'obligations': len(o['results'])} for o in results],
        'by_backend': backends, 'solver_s': round(sum(o['solver_s'] for o in results), 2),
        'failed': [r['unit'] + '/' + r['name'] for r in failed],
        'undecided': [r['unit'] + '/' + r['name'] for r in undecided],
        'bounded_not_proved': [o['unit'] + ': ' + o.get('why', '') for o in reach],
        'evaluations': res['evaluations'], 'distinct_nontrivial': res['nontrivial'],
        'rule': 'replay: concrete inputs drawn from VERIF_SEED by the generators in replay/p_*.py (cases: %s); an input counts when it is distinct and its generator marks it non-trivial' % json.dumps(res.get('cases', {})),
        'samples': res['samples'] or ['no replay sample'],
        'explanation': 'contracts discharged deductively from the current source; replay evaluates the same contracts on concrete inputs (bounded, not counted as proved)',
    }
    cov.update(extra)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': ASSUME,
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations) + (1 if failed and not violations else 0)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d obligations, %d discharged, %d failed, %d undecided, %d units out of reach; replay %d evaluations, %d violations; %.1f s' % (
        prop, tier, n_obl, len(proved), len(failed), len(undecided), len(reach), res['evaluations'], len(violations), time.time() - t0))
    return code


def extra_steps(prop, tier, tree):
    from vcg import lean
    return {'lemma_schemata': lean.check(HERE)}


def known_findings(prop):
    p = os.path.join(HERE, 'KNOWN_FINDINGS.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop]


def z3v():
    import z3
    return z3.get_version_string()


TRUSTED = ['the verification condition generator in /verif/vcg (symbolic execution, loop summaries, lemma schemata)',
           'z3 and cvc5', 'CPython semantics as modelled in vcg/interp.py']
ASSUME = ['floating-point arithmetic is treated as real arithmetic, machine integers as mathematical integers (replay runs the real arithmetic)',
          'the contracts of the numpy and scipy functions named in trusted_base hold',
          'not running inside a notebook']

if __name__ == '__main__':
    main()
