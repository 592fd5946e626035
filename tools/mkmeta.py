#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one table)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, '..', 'checks'))
sys.dont_write_bytecode = True
from props import PROPS, NA
import registry

ROOT = os.path.join(HERE, '..')
PY = '/opt/venv/bin/python'
NOTE = ('Bounded: the real code (Cython translated to Python on every run) is executed symbolically, every branch is '
        'decided by z3, every assertion is a validity query over all values of the symbolic inputs on that path; '
        'counterexamples are replayed against the compiled code before they are reported. Outside the claim: {out}. '
        'Trusted: the Cython translator, the C runtime/numpy models, z3.')
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
na = {n['property'] for n in NA}
checks = []
for p in PROPS:
    if p['id'] in na:
        continue
    assert p['id'] in registry.PROPS, p['id']
    checks.append({
        'property': p['id'],
        'quick_cmd': '%s run_check.py %s quick' % (PY, p['id']),
        'thorough_cmd': '%s run_check.py %s thorough' % (PY, p['id']),
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p.get('technique', 'bounded symbolic execution of the real code, z3 decides every branch and assertion'),
        'level': 'model_checking',
        'level_note': NOTE.format(out=p['out'])})
man = {'version': 1, 'setup_cmd': '%s tools/selftest.py' % PY,
       'hooks': {'guard': 'JPT_VERIF', 'enable': 'no hooks are needed: the checks read the sources of /repo as they are',
                 'source_commits': []},
       'checks': checks, 'not_applicable': NA,
       'notes': 'See DESIGN.md. Each check rebuilds its encoding from /repo/src on every run.'}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
missing = set(registry.PROPS) - {p['id'] for p in PROPS}
print(len(PROPS), 'properties,', len(checks), 'checks', 'UNDESCRIBED %s' % sorted(missing) if missing else '')
