#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the checks that exist."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS  # noqa

HOOKS = None
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': p['mech'], 'hook_needed': None}}) + '\n')
checks, na = [], []
for p in PROPS:
    if os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')):
        checks.append({'property': p['id'],
                       'quick_cmd': 'bash /verif/check.sh %s --tier quick' % p['id'],
                       'thorough_cmd': 'bash /verif/check.sh %s --tier thorough' % p['id'],
                       'technique': 'model checking: ' + p['technique'],
                       'level': 'model_checking',
                       'level_note': p['level_note']})
    else:
        na.append({'property': p['id'], 'reason': p.get('na') or 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
