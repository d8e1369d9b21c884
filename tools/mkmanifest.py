#!/usr/bin/env python3
"""writes MANIFEST.json from contracts/cNN.py"""
import ast
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = {
    'proof': 'contract-based deductive verification (pyvc obligations from the Python AST, z3/cvc5) + concrete replay harness',
    'other': 'contracts evaluated on the real code, bounded; part of the obligations discharged deductively',
}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    f = os.path.join(H, 'contracts', pid.lower() + '.py')
    if pid in NA or not os.path.exists(f):
        na.append(dict(property=pid, reason=NA.get(pid, 'check not built yet')))
        continue
    c = {}
    for s in ast.parse(open(f).read()).body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant):
            c[s.targets[0].id] = s.value.value
    lv = c.get('LEVEL', 'proof')
    checks.append(dict(property=pid, quick_cmd='python3-vt check.py ' + pid, thorough_cmd='python3-vt check.py %s --tier thorough' % pid,
                       evidence_file='evidence/%s.json' % pid, technique=c.get('TECHNIQUE', TECH[lv]), level=lv,
                       level_note=c.get('NOTE', 'Obligations generated from the current source of the functions under contract and discharged for all inputs (floats as extended reals, '
                                               'assumed library contracts, partial correctness); the same contracts are evaluated on the running code on bounded cases for a failing input. '
                                               'See DESIGN.md and trusted_base in the evidence.')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
