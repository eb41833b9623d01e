#!/usr/bin/env python3
"""MANIFEST.json from contracts/registry.py"""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = ast.parse(open(os.path.join(V, 'contracts', 'registry.py')).read())
ns = {}
for n in src.body:
    if isinstance(n, ast.Assign): ns[n.targets[0].id] = eval(compile(ast.Expression(n.value), 'registry', 'eval'), {})
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = 'contract-based deductive verification: VCs generated from /repo source by symbolic execution with inductive loop summaries, discharged by a normal-form prover + z3; failures replayed on the real code'
BASE = 'All obligations are generated from the current /repo source on every run and hold for all sizes/inputs satisfying the preconditions. Floats are treated as reals; numpy/scipy/builtin operations are trusted models (cross-checked against CPython on generated inputs in each run).'
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [], 'notes': 'python3 check.py <property> [--tier quick|thorough]; python3 check.py --replay <file>. See DESIGN.md.'}
for p in props:
    i = p['id']
    if i in ns['MODULES']:
        note = (ns['NOTES'].get(i, '') + ' ' + BASE).strip()
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'technique': ns['TECHS'].get(i, TECH), 'level': ns['LEVELS'].get(i, 'proof'), 'level_note': note})
    else: m['not_applicable'].append({'property': i, 'reason': ns['NA'].get(i, 'no check built yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
