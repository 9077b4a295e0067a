#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the rule registry."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
from props import PROPS, NA, TRUST
from jomcheck.rules import registry

out = os.path.dirname(HERE)
ids = [p['id'] for p in PROPS]
assert len(ids) == len(set(ids)), 'duplicate id'
checks, na = [], []
with open(os.path.join(out, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['tests'],
             'anchors': {'files': p['files'], 'mechanism': p['mech']}}
        f.write(json.dumps(d) + '\n')
        if p['id'] in NA:
            na.append({'property': p['id'], 'reason': NA[p['id']]})
            continue
        if p['id'] not in registry.CHECKS:
            sys.exit('no check for ' + p['id'])
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                       'thorough_cmd': 'python3 check.py ' + p['id'], 'technique': p['tech'], 'level': 'other',
                       'level_note': p['note'] + ' ' + TRUST})
for i in registry.CHECKS:
    if i not in ids:
        print('note: check without property', i)
m = {'version': 1, 'setup_cmd': 'python3 -m jomcheck.extract', 'checks': checks, 'not_applicable': na}
with open(os.path.join(out, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print('%d properties, %d checks, %d not applicable' % (len(ids), len(checks), len(na)))
