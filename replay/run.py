"""run.py PROP TIER SEED BUDGET_S OUT.json   |   run.py --case PROP NAME SEED K"""
import importlib, json, os, sys, time, glob, shutil, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import warnings
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
import lib


def load():
    for f in sorted(glob.glob(os.path.join(here, 'p_*.py'))):
        importlib.import_module(os.path.basename(f)[:-3])


def main():
    scratch = tempfile.mkdtemp(prefix='rankeval-replay-')
    try:
        if sys.argv[1] == '--case':
            _, _, prop, name, seed, k = sys.argv
            load()
            c = [c for c in lib.CASES[prop] if c.name == name][0]
            t, err = lib.run_case(c, int(seed), int(k), scratch)
            print(json.dumps(lib.jsonable(t.inputs)))
            print('VIOLATED: ' + err if err else 'holds')
            sys.exit(1 if err else 0)
        prop, tier, seed, budget, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
        load()
        import rankeval
        res = {'evaluations': 0, 'nontrivial': 0, 'samples': [], 'violations': [], 'cases': {}, 'module': rankeval.__file__}
        cs = lib.CASES.get(prop, [])
        t0 = time.time()
        seen = set()
        prog = open(out + '.progress', 'w')
        least = float(sys.argv[6]) if len(sys.argv) > 6 else 0      # go on with further inputs for at least this time
        start = {c.name: 0 for c in cs}

        def some(c, n, until):
            done = 0
            for k in range(start[c.name], start[c.name] + n):
                if time.time() > until and (done > 0 or start[c.name] > 0):
                    break
                prog.seek(0)
                prog.write('%s %s %d %d      \n' % (prop, c.name, seed, k))
                prog.flush()
                t, err = lib.run_case(c, seed, k, scratch)
                done += 1
                res['evaluations'] += 1
                key = json.dumps(lib.jsonable(t.inputs), sort_keys=True)[:4000]
                if t.nontrivial and key not in seen:
                    seen.add(key)
                    res['nontrivial'] += 1
                if len(res['samples']) < 3 and k == 0 and not err:
                    res['samples'].append({'case': c.name, 'inputs': json.loads(key) if len(key) < 4000 else key[:1500]})
                if err:
                    res['violations'].append({'case': c.name, 'seed': seed, 'k': k, 'what': err, 'inputs': lib.jsonable(t.inputs)})
                    if len([v for v in res['violations'] if v['case'] == c.name]) >= 3:
                        start[c.name] = 10 ** 9
                        break
            if start[c.name] < 10 ** 9:
                start[c.name] += done
            res['cases'][c.name] = res['cases'].get(c.name, 0) + done

        for ci, c in enumerate(cs):
            some(c, c.quick if tier == 'quick' else c.thorough, t0 + budget * (ci + 1) / len(cs))
            if len(res['violations']) >= 9:
                break
        while cs and not res['violations'] and time.time() < t0 + least:
            for c in cs:
                some(c, max(1, c.quick // 10), time.time() + max(0.5, (t0 + least - time.time()) / len(cs)))
        with open(out, 'w') as f:
            json.dump(res, f)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


main()
