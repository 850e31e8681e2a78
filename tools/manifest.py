#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from plan.py and properties.jsonl"""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(H, 'verus'))
from contracts import F
from plan import PLAN, NOT_APPLICABLE, HOOKS
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in PLAN: continue
    p = PLAN[i]
    c = {'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
         'technique': p.get('technique') or technique(p) if False else p.get('technique', ''), 'level': p['level'], 'level_note': p['note']}
    if not c['technique']:
        t = []
        if p['prove']: t.append('contracts on the real generic code, verification conditions by symbolic execution, discharged by SMT over the reals')
        if p.get('kani'): t.append('Kani contracts and proof harnesses')
        if any(i in x['props'] for x in F): t.append('Verus contracts and loop invariants on functions extracted from the source on every run')
        if not t: t.append('contracts evaluated on the real code (bounded)')
        elif any(x not in p['prove'] for x in p['search']): t.append('bounded evaluation of the remaining contracts')
        c['technique'] = '; '.join(t)
    checks.append(c)
na = [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check yet')} for i in ids if i not in PLAN]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
if HOOKS: m['hooks'] = HOOKS
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
