#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py (run by hand after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'meta'))
sys.dont_write_bytecode = True
from props import PROPS, NA
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['forall']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash bin/build.sh',
     'checks': [{'property': p['id'], 'quick_cmd': 'bin/check %s quick' % p['id'], 'thorough_cmd': 'bin/check %s thorough' % p['id'],
                 'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in PROPS if p['id'] not in dict(NA)],
     'not_applicable': [{'property': i, 'reason': r} for i, r in NA]}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
