#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from vlib.props import CHECKS
NOTES = {}
exec(open(os.path.join(V, 'tools', 'levels.py')).read(), NOTES)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        tech, note = NOTES['NOTE'][i]
        checks.append({'property': i, 'quick_cmd': f'python3 bin/check.py {i} --tier quick',
                       'thorough_cmd': f'python3 bin/check.py {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': tech, 'level': 'model_checking', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NOTES['NA'].get(i, 'check under construction in this working session')})
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, checked with TLC; conformance drivers in harness/; see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
