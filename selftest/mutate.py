#!/usr/bin/env python3
"""Development aid (not a registered check): applies source edits to a scratch copy of /repo and runs checks there.

  mutate.py [-c C01,C02] [-k name] [FILE...]   FILE: python files defining MUTANTS = [(name, checks, [(file, old, new)...])]
A name starting with 'ok-' is a behaviour-preserving edit: the checks must stay quiet; all others must be caught."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'


def run(m, only):
    name, checks, edits = m
    d = tempfile.mkdtemp(prefix='jommut')
    try:
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(d, 'src'))
        for f, old, new in edits:
            p = os.path.join(d, 'src', 'jomlib', f)
            if not os.path.exists(p):
                p = os.path.join(d, 'src', 'app', f)
            s = open(p, encoding='latin-1').read()
            if s.count(old) < 1:
                return name, 'BAD-EDIT', 'not found: ' + old
            s = s.replace(old, new, 1)
            open(p, 'w', encoding='latin-1').write(s)
        env = dict(os.environ, JOM_REPO=d, JOM_EVIDENCE=os.path.join(d, 'ev'))
        r = subprocess.run([sys.executable, os.path.join(HERE, '..', 'check.py')] + (only or checks), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = r.stdout
        v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        ids = sorted({l.split('property=')[1].split()[0] for l in v})
        want = not name.startswith('ok-')
        good = (r.returncode == 1 and ids) if want else r.returncode == 0
        return name, ('ok   ' if good else 'FAIL ') + ' rc=%d %s' % (r.returncode, ','.join(ids)), out
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    only = None
    key = None
    verbose = False
    files = []
    while a:
        x = a.pop(0)
        if x == '-c':
            only = a.pop(0).split(',')
        elif x == '-k':
            key = a.pop(0)
        elif x == '-v':
            verbose = True
        else:
            files.append(x)
    ms = []
    for f in files:
        g = {}
        exec(open(f).read(), g)
        ms += g['MUTANTS']
    if key:
        ms = [m for m in ms if key in m[0]]
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for name, res, out in ex.map(lambda m: run(m, only), ms):
            print('%-40s %s' % (name, res))
            if not res.startswith('ok'):
                bad += 1
            if verbose or not res.startswith('ok'):
                print('\n'.join('      ' + l[:220] for l in out.splitlines()[:8]))
    return 1 if bad else 0


sys.exit(main())
