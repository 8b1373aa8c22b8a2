#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, props/*/check.json and tools/not_applicable.json"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
na = json.load(open(os.path.join(root, 'tools', 'not_applicable.json')))
checks = []
for p in props:
    cj = os.path.join(root, 'props', p['id'], 'check.json')
    if p['id'] in na: continue
    if not os.path.exists(cj):
        raise SystemExit('no check for ' + p['id'])
    m = json.load(open(cj))
    checks.append({'property': p['id'],
                   'quick_cmd': 'python3 vf.py check %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3 vf.py check %s --tier thorough' % p['id'],
                   'technique': m.get('technique', 'contracts on the real C functions, discharged by CBMC (SAT) for all inputs; counterexamples replayed natively'),
                   'level': m['level'],
                   'level_note': m.get('note', 'requires/ensures contracts over the real functions included from /repo; loops bounded by operand width or structure are unwound with unwinding assertions on')})
out = {'version': 1, 'setup_cmd': 'python3 vf.py setup', 'checks': checks,
       'not_applicable': [{'property': k, 'reason': v} for k, v in na.items()],
       'notes': 'See DESIGN.md. Nothing is cached between runs: every check preprocesses, compiles and verifies /repo\'s current working tree.'}
json.dump(out, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
