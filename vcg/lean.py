"""Checks the Lean proofs of the lemma schemata that the prover instantiates (lemmas/Schemata.lean)."""
import os, shutil, subprocess, time


def check(here):
    exe = shutil.which('lean')
    src = os.path.join(here, 'lemmas', 'Schemata.lean')
    if not exe:
        return {'file': 'lemmas/Schemata.lean', 'status': 'lean not found'}
    t = time.time()
    try:
        p = subprocess.run([exe, src], capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return {'file': 'lemmas/Schemata.lean', 'status': 'timeout'}
    text = p.stdout + p.stderr
    ok = p.returncode == 0 and 'sorry' not in text and 'error' not in text
    n = sum(1 for l in open(src) if l.startswith('theorem '))
    return {'file': 'lemmas/Schemata.lean', 'status': 'checked' if ok else 'rejected: ' + text[-400:], 'theorems': n,
            'wall_s': round(time.time() - t, 1)}
