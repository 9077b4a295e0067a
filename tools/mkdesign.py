#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/props.py, the rules and tools/design_tail.md."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, ROOT)
from props import PROPS, NA
out = [open(HERE + '/design_head.md').read()]
out.append('## Properties\n\nFor each property: how it is decided, the rules (the oracle), and what was analysed on the present tree.\n')
for p in PROPS:
    out.append('### %s %s\n' % (p['id'], p['title']))
    if p['id'] in NA:
        out.append('Not applicable: %s\n' % NA[p['id']])
        continue
    ev = json.load(open(ROOT + '/evidence/%s.json' % p['id']))
    out.append('Method: %s. %s\n' % (p['tech'], p['note']))
    out.append('Analysed: ' + ', '.join('`%s`' % f for f in p['files']) + '.\n')
    c = ev['coverage']
    out.append('On the present tree: %d obligations, %d functions, entry points %s.\n' % (c['obligations'], c['functions_analysed'],
                                                                                  ', '.join('`%s`' % x for x in c['entry_points'])))
    for r in sorted(c['rules'].items()):
        out.append('* `%s` %s' % r)
    out.append('')
out.append(open(HERE + '/design_tail.md').read())
caught = json.load(open(HERE + '/caught.json'))
for i in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open(ROOT + '/seeded/%s/meta.json' % i))
    out.append('| %s | %s | %s |' % (i, m['property'], ', '.join(caught.get(i, ['?'])) or 'MISSED'))
out = '\n'.join(out[:]).replace('|---|---|---|\n\n|', '|---|---|---|\n|').rstrip('\n').split('\n') + ['']
open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out))
