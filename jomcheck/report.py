"""Collects obligations and violations of one check and writes evidence, replay files and the verdict."""
import json
import os
import sys
import time

from .extract import AnalysisError, VERIF, REPO
from .engine import trace_lines


class Report(object):
    def __init__(self, pid):
        self.pid = pid
        self.rules = {}          # rule -> description
        self.obl = {}            # (rule, site) -> True/False
        self.viol = {}           # (rule, fn, key) -> dict
        self.functions = set()
        self.paths = 0
        self.nodes = 0
        self.calls = 0
        self.merges = 0
        self.entries = []
        self.notes = []
        self.assumptions = []

    def rule(self, name, text):
        self.rules[name] = text

    def absorb(self, eng, entry=None):
        s = eng.stats
        self.functions |= s['functions']
        self.paths += s['paths']
        self.nodes += s['nodes']
        self.calls += s['calls']
        self.merges += s['merges']
        if entry:
            self.entries.append(entry)
        s['paths'] = s['nodes'] = s['calls'] = s['merges'] = 0

    def ok(self, rule, site):
        """An obligation instance that was looked at and held on this path."""
        self.obl.setdefault((rule, site), True)

    def bad(self, rule, fn, line, key, msg, st=None, file=None):
        """A violation; (rule, fn, key) identifies it independently of line numbers."""
        k = (rule, fn, key)
        self.obl[(rule, '%s: %s' % (fn, key))] = False
        if k in self.viol:
            return
        self.viol[k] = {'rule': rule, 'function': fn, 'line': line, 'key': key, 'message': msg,
                        'file': file, 'path': trace_lines(st) if st is not None else []}

    def check(self, cond, rule, fr, node, key, msg, st=None):
        site = '%s: %s' % (fr.fn.short, key)
        if cond:
            self.ok(rule, site)
        else:
            self.bad(rule, fr.fn.short, node.line if node is not None else fr.fn.line, key, msg, st, fr.fn.file)
        return cond

    def count(self, rule):
        return len([1 for (r, s) in self.obl if r == rule])

    def require(self, rule, n):
        """The rule must have matched at least n sites: a rule that matches nothing proves nothing."""
        if any(k[0] == rule for k in self.viol):
            return
        c = self.count(rule)
        if c < n:
            raise AnalysisError('rule %s matched %d site(s), expected at least %d' % (rule, c, n))


def known_findings():
    p = os.path.join(VERIF, 'known-findings.jsonl')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                r.append(json.loads(l))
    return r


def finish(rep, t0, prog):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = [k for k in known_findings() if k.get('property') == rep.pid and k.get('status') == 'open']
    bad = []
    for (rule, fn, key), v in sorted(rep.viol.items()):
        hit = None
        for k in known:
            if k['rule'] == rule and k['function'] == fn and k['key'] == key:
                hit = k
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (rep.pid, hit['what']))
        else:
            bad.append(v)
    perrule = {}
    for (r, s), okk in rep.obl.items():
        perrule.setdefault(r, []).append((s, okk))
    cov = {
        'explanation': 'Static analysis of the type-checked program extracted from %s with clang: path-sensitive '
                       'dataflow over control flow graphs, callees inlined; nothing is executed. Rules: ' % REPO +
                       ' '.join('[%s] %s' % (r, t) for r, t in sorted(rep.rules.items())),
        'rules': dict(sorted(rep.rules.items())),
        'translation_units': len(prog.units) if prog else 0,
        'functions_in_program': len(prog.funcs) if prog else 0,
        'entry_points': sorted(set(rep.entries)),
        'functions_analysed': len(rep.functions),
        'function_names': sorted(rep.functions),
        'paths_to_an_exit': rep.paths,
        'cfg_nodes_evaluated': rep.nodes,
        'call_sites_evaluated': rep.calls,
        'state_merges': rep.merges,
        'obligations': len(rep.obl),
        'discharged': len([1 for v in rep.obl.values() if v]),
        'obligations_per_rule': {r: len(v) for r, v in sorted(perrule.items())},
        'samples': sorted('%s @ %s' % (r, s) for (r, s) in rep.obl)[:40],
    }
    if rep.notes:
        cov['notes'] = rep.notes
    ev = {'property': rep.pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': rep.assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(bad)}
    evdir = os.environ.get('JOM_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, rep.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if bad:
        rp = os.path.join(evdir, rep.pid + '.violations.txt')
        with open(rp, 'w') as f:
            for v in bad:
                f.write('%s:%s: %s: [%s] %s\n' % (v['file'] or '', v['line'], v['function'], v['rule'], v['message']))
                f.write('  rule: %s\n' % rep.rules.get(v['rule'], ''))
                if v['path']:
                    f.write('  path:\n')
                    for l in v['path']:
                        f.write('    %s\n' % l)
                f.write('\n')
        for v in bad:
            print('%s:%s: %s: [%s] %s' % (v['file'] or '', v['line'], v['function'], v['rule'], v['message']))
        print('VIOLATION property=%s replay=%s' % (rep.pid, rp))
        return 1
    print('%s: %d obligations at %d rules hold; %d functions, %d paths' %
          (rep.pid, len(rep.obl), len(perrule), len(rep.functions), rep.paths))
    return 0
