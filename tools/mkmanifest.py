#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks in harness/check.py and notes below."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
src = open(os.path.join(V, 'harness', 'check.py')).read()
GROUPS = eval(re.search(r'GROUPS = (dict\(.*?\n?\))\n\nif', src, re.S).group(1))
have = sorted(p for ps in GROUPS.values() for p in ps)
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p in have:
        n = NOTES[p]
        checks.append(dict(property=p, quick_cmd=f'./check.sh {p} --tier quick', thorough_cmd=f'./check.sh {p} --tier thorough',
                           technique=n['technique'], level='model_checking', level_note=n['note']))
na = [dict(property=p, reason='the check is not built yet') for p in props if p not in have]
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
