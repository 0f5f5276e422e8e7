#!/usr/bin/env python3
"""writes MANIFEST.json from the table of claimed properties"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = 'Assumes: floats as reals, machine integers as mathematical ones, the library contracts listed in the evidence (trusted_base); trusts the VC generator vcg/, z3 and cvc5.'
# property -> (level, note)
CLAIMED = {}


def proof(p, what):
    CLAIMED[p] = ('proof', what + ' Every obligation is generated from the current source and discharged for all inputs; the same contract is evaluated on concrete inputs against the built code (replay, bounded). ' + TRUST)


def mixed(p, what):
    CLAIMED[p] = ('other', what + ' ' + TRUST)


exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for d in props:
    p = d['id']
    if p in CLAIMED:
        lv, note = CLAIMED[p]
        checks.append({'property': p, 'quick_cmd': './check.sh %s quick' % p, 'thorough_cmd': './check.sh %s thorough' % p,
                       'technique': 'contract-based deductive verification of the current source (weakest-precondition style VC generator over the Python/Cython/C++ syntax tree, z3 and cvc5), failed obligations replayed on the built code',
                       'level': lv, 'level_note': note})
    else:
        na.append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'not yet under contract')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks read the source of /repo and build a scratch copy of it. Genuine defects repaired in /repo are listed in KNOWN_FINDINGS.json.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
