#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties in lib/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import plan
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in plan.PLANS:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s quick' % i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': plan.TECH[i],
            'level': 'model_checking',
            'level_note': plan.NOTE[i],
        })
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1,
     'setup_cmd': 'python3 tools/setup.py',
     'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, checked with TLC; behaviours are replayed into the real crate by harness/, traces of the crate are checked by TLC. No hooks are needed in /repo: everything is observed through the public API.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'open')
