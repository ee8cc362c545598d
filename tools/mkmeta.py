#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props

ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
    for p in props.PROPS:
        rec = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
               'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
               'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        if p.get('observe'):
            rec['anchors']['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['id']
        fh.write(json.dumps(rec) + '\n')
checks = []
na = []
for p in props.PROPS:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3-vt run.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3-vt run.py %s --tier thorough' % p['id'],
        'technique': 'symbolic execution of the real Python code (AST-instrumented from /repo on every run) with z3 '
                     'deciding every branch and every obligation; counterexamples replayed on the unmodified code',
        'level': 'model_checking',
        'level_note': p['note'],
    })
man = {'version': 1, 'setup_cmd': "python3-vt -c 'import z3; print(z3.get_version_string())'", 'checks': checks,
       'not_applicable': na,
       'notes': 'No hooks in /repo. run.py <id> [-v] [--tier] runs one check; run.py --replay FILE replays a '
                'counterexample with ordinary imports of /repo. See DESIGN.md.'}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
