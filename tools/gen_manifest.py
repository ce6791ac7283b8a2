#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import plan
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in plan.CHECKS:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'symbolic execution of the real code (LLVM IR from rustc) with Z3, against a reference model',
            'level': 'model_checking',
            'level_note': 'Bounded: ' + plan.CHECKS[i]['bounds'] + '. Outside: ' + plan.CHECKS[i]['outside'] + '. Trusts rustc\'s IR, the engine in /verif/engine (its predictions are compared with native runs on sampled paths) and Z3; counterexamples are replayed natively before being reported.',
        })
    else:
        na.append({'property': i, 'reason': plan.NOT_APPLICABLE.get(i, 'its check is still being built')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'DESIGN.md describes the method; known_findings.txt the defects found and repaired.'}
if plan.HOOKS:
    m['hooks'] = plan.HOOKS
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
