#!/usr/bin/env python3
"""seed.py FILE.json...  : confirm and store planted bugs.  Each json (or python literal) file holds a list of
{id, property, edits: [[file, old, new], ...], demo (python source), needs, what_it_breaks}.
A bug is kept in /verif/seeded/<id>/ when it builds, passes the stable tests, its demo fails with it and passes without."""
import json, os, shutil, subprocess, sys, ast
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CLEAN, MUT = '/tmp/seed-clean', '/tmp/seed-mut'
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD:/opt/vp/compat" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, timeout=600, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout, env=env)
    return p.returncode, (p.stdout + p.stderr)[-1500:]


def fresh(d):
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)


def build(d):
    return sh([PY, 'setup.py', '-q', 'build_ext', '--inplace', '-j4'], d)


STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def tests(d):
    env = dict(os.environ, PYTHONPATH=d + ':/opt/vp/compat', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')
    mods = sorted({s.split('::')[0].rsplit('.', 1)[0] for s in STABLE})
    ids = ['%s.py::%s::%s' % (s.split('::')[0].rsplit('.', 1)[0].replace('.', '/'), s.split('::')[0].rsplit('.', 1)[1], s.split('::')[1]) for s in STABLE]
    rc, out = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'nose_compat'] + ids, d, env=env)
    return rc, out


def main():
    if not os.path.isdir(CLEAN) or '--fresh' in sys.argv:
        fresh(CLEAN)
        print('clean build', build(CLEAN)[0])
    for f in [a for a in sys.argv[1:] if not a.startswith('--')]:
        for b in ast.literal_eval(open(f).read()):
            if '--all' in sys.argv or not os.path.exists(os.path.join(HERE, 'seeded', b['id'], 'meta.json')):
                one(b)


def one(b):
    fresh(MUT)
    for path, old, new in b['edits']:
        p = os.path.join(MUT, path)
        s = open(p).read()
        if s.count(old) != 1:
            print(b['id'], 'REJECTED: text occurs %d times in %s' % (s.count(old), path))
            return
        open(p, 'w').write(s.replace(old, new))
    rc, diff = sh('git diff', MUT)
    diff = subprocess.run(['git', 'diff'], cwd=MUT, capture_output=True, text=True).stdout
    compiled = any(p.endswith(('.pyx', '.cpp', '.h')) for p, _, _ in b['edits'])
    if compiled:
        rc, out = build(MUT)
        if rc:
            print(b['id'], 'REJECTED: does not build', out[-400:])
            return
    rc, out = tests(MUT)
    if rc:
        print(b['id'], 'REJECTED: tests', out[-400:])
        return
    d = os.path.join('/tmp/seed-demo', b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, 'demo.py'), 'w').write(b['demo'])
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    r0, o0 = sh([os.path.join(d, 'demo.sh')], CLEAN, 280)
    r1, o1 = sh([os.path.join(d, 'demo.sh')], MUT, 280)
    if r0 != 0 or r1 == 0:
        print(b['id'], 'REJECTED: demo clean rc %s, mutated rc %s' % (r0, r1), o0[-600:] if r0 else o1[-300:])
        return
    out = os.path.join(HERE, 'seeded', b['id'])
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(d, out)
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what_it_breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    print(b['id'], 'kept', '(demo on the changed tree: %s)' % o1.strip().split('\n')[-1][:150])


main()
