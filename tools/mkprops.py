#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table in props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOT_APPLICABLE, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
             'observe_at': p['observe'], 'hook_needed': None}
        if p.get('state'):
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']},
             'why_tests_cant': p['why'], 'anchors': a}
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'bin/build',
     'checks': [{'property': p['id'], 'quick_cmd': f"bin/check {p['id']} quick",
                 'thorough_cmd': f"bin/check {p['id']} thorough",
                 'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']}
                for p in PROPS if p['technique']],
     'not_applicable': [{'property': i, 'reason': r} for i, r in NOT_APPLICABLE], 'notes': NOTES}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
