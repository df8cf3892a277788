#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PROPS, NOT_YET
ids = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
checks = []
for p in ids:
    if p not in PROPS:
        continue
    P = PROPS[p]
    be = (['Verus'] if P.get('units') else []) + (['Kani (loop-free harnesses, full input domain)'] if P.get('kani') else [])
    checks.append({'property': p, 'quick_cmd': f'python3 check.py {p}', 'thorough_cmd': f'python3 check.py {p} thorough',
                   'technique': 'contracts on the real functions, extracted on every run, discharged by ' + ' and '.join(be),
                   'level': 'proof', 'level_note': P['note']})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
           'not_applicable': [{'property': p, 'reason': NOT_YET.get(p, 'no check yet')} for p in ids if p not in PROPS],
           'notes': 'No hooks in /repo: the checks extract the crate\'s functions from its macro-expanded source and use its public interface. Known and repaired findings: known_findings.txt. Details: DESIGN.md.'},
          open(f'{V}/MANIFEST.json', 'w'), indent=1)
