#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds.py (development aid)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
g = {}
exec(open(os.path.join(HERE, 'seeds.py')).read(), g)
want = sys.argv[1:]
for s in g['SEEDS']:
    if want and s['id'] not in want:
        continue
    out = os.path.join(ROOT, 'seeded', s['id'])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    d = tempfile.mkdtemp(prefix='jomseed')
    subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/r'])
    for f, old, new in s['edits']:
        p = os.path.join(d, 'r', 'src', f)
        t = open(p, encoding='latin-1', newline='').read()
        assert t.count(old) >= 1, (s['id'], f, old)
        open(p, 'w', encoding='latin-1', newline='').write(t.replace(old, new, 1))
    diff = subprocess.check_output(['git', '-C', d + '/r', 'diff'])
    open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
    shutil.rmtree(d)
    files = ['lib.sh', 'fakejom.cpp', 'build.sh'] if not s.get('files') else s['files']
    for f in files:
        shutil.copy(os.path.join(ROOT, 'demolib', f), out)
    with open(os.path.join(out, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\n# %s\n. "$(dirname "$0")/%s"\n' % (s['breaks'].replace('\n', ' '), files[0]) + s['demo'].lstrip('\n') + 'exit 0\n')
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    print(s['id'])
