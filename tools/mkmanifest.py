#!/usr/bin/env python3
"""Write MANIFEST.json: a check per property whose contracts exist"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = {}
NOTE = {}
exec(open(os.path.join(HERE, 'tools/claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        level, note = CLAIMS[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py %s' % i,
            'thorough_cmd': 'python3-vt check.py %s --thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'contract-based deductive verification of the sources (symbolic execution to verification conditions, discharged by an algebraic kernel, z3 and cvc5), with concrete replay against an independent oracle',
            'level': level,
            'level_note': note})
    else:
        na.append({'property': i, 'reason': NOT.get(i, 'contracts not written yet')})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. Contracts are in contracts/, the verifier in vc/, the concrete companion in oracles/.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
