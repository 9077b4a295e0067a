"""C07, C08: the decision whether a target is up to date, and the file information it is based on."""
from .common import *
from .registry import check
from .graph import DEPS, NODETGT, LEAVES, STATE, lookup_of, enum_value
from .executor import cur, root_frame, queued

DB = 'DescriptionBlock::'
TS = DB + 'm_timeStamp'
EXISTS = DB + 'm_bFileExists'
RULES = DB + 'm_inferenceRules'
CMDS = 'CommandContainer::m_commands'
DIRTY = 'DependencyGraph::m_bDirtyLeaves'
UTD = 'DependencyGraph::isTargetUpToDate'
FFI = 'FastFileInfo::'
TIMENOIN = ('Makefile::target', 'Makefile::dirPath', FFI + 'FastFileInfo', FFI + 'exists', FFI + 'lastModified',
            'FileTime::currentTime', 'FileTime::isValid', 'FileTime::operator<', 'InferenceRule::inferredDependent',
            'DescriptionBlock::targetName', 'FileTime::clear')
TIMEEV = either(field_events(DEPS, TS, EXISTS, RULES), call_events(FFI + 'FastFileInfo', FFI + 'exists', FFI + 'lastModified',
                                                                   'FileTime::currentTime', UTD))


def fileinfo_of(t):
    """The name whose file a FastFileInfo term describes."""
    t = strip_old(t)
    if isinstance(t, tuple) and t and t[0] == 'obj' and t[1].endswith('FastFileInfo') and t[2]:
        return strip_old(t[2][0])
    return None


def has_now(t, e):
    """Does the term contain e, other than in a former value?"""
    if t == e:
        return True
    return isinstance(t, tuple) and (not t or t[0] != 'old') and any(has_now(x, e) for x in t if isinstance(x, tuple))


class UpToDate(EachRule):
    """isTargetUpToDate: the result follows from the existence and the times of the target and of all its dependents."""
    EACH = 'C07.all'
    PER_ELEM = ('cmp', 'now', 'valid', 'pex', 'pcmd', 'dep', 'have', 'in')

    def param(self, fr):
        f = root_frame(fr).fn
        return ('p', f.key, f.params[0]['n'])

    def each_want(self, elem):
        c = strip_old(elem)[1]
        return is_field(c, DEPS) and strip_old(c[1])[0] == 'p' or is_field(c, RULES) and strip_old(c[1])[0] == 'p'

    def is_rules(self, elem):
        return is_field(strip_old(elem)[1], RULES)

    def each_start(self, eng, st, fr, node, elem):
        self.each_reset(st)

    def timelike(self, v):
        s = strip_old(v)
        return s[0] == 'obj' and s[1].endswith('FileTime') or is_field(s, TS) or resname(s) in ('currentTime', 'lastModified') \
            or s[0] == 'phi'

    def own(self, st, fr, t):
        """Is the term a FastFileInfo of the target itself?"""
        n = fileinfo_of(t)
        return n is not None and callname(n) == 'targetName' and strip_old(n[2]) == self.param(fr)

    def raws(self, st):
        return [v for k, v in st.flags.items() if k[0] == 'each']

    def of_elem(self, st, t):
        """Is the FastFileInfo one of the current dependent?"""
        if not isinstance(t, tuple) or t[0] == 'old':
            return False
        for e in self.raws(st):
            if t[0] == 'obj' and t[1].endswith('FastFileInfo') and t[2] and has_now(t[2][0], e):
                return True
        return False

    def after(self, eng, st, fr, node, ci, res):
        if ci.short == 'lastModified' and ci.recv is not None:
            if self.own(st, fr, ci.recv):
                st.flags[('ownlm',)] = res
            elif self.of_elem(st, ci.recv):
                st.flags[('have', 'stat')] = res
        elif ci.has(UTD):
            st.flags[('again',)] = res

    def source(self, st, x):
        """Where a time comes from, as to the current dependent: 'field', 'stat' or None."""
        if x[0] == 'old':
            return None
        for e in self.raws(st):
            if is_field(x, TS) and has_now(x, e) and lookup_of(x[1], strip_old(e)):
                return 'field'
        h = st.flags.get(('have', 'stat'))
        if h is not None and h == x:
            return 'stat'
        if callname(x) == 'lastModified' and self.of_elem(st, x[2]):
            return 'stat'
        return None

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth, True)
        me = self.param(fr)
        if callname(x) == 'exists' and self.own(st, fr, x[2]):
            st.flags[('own',)] = int(v)
        if callname(x) == 'isValid':
            if v is False or self.source(st, x[2]):
                st.flags[('valid', strip_old(x[2]))] = int(v)
        if is_field(x, EXISTS) and strip_old(x[1]) == me:
            st.flags[('exists',)] = int(v)
        for e in self.each_current(st):
            if is_field(x, EXISTS) and lookup_of(x[1], e):
                st.flags[('pex',)] = int(v)
            for y in subterms(x):
                if y[0] == 'size' and is_field(y[1], CMDS) and lookup_of(y[1][1], e) and st.truth(y) is not None:
                    st.flags[('pcmd',)] = int(st.truth(y))
            if lookup_of(x, e):
                st.flags[('dep',)] = int(v)
            if callname(x) == 'exists' and self.of_elem(st, x[2]):
                st.flags[('there',)] = int(v)
        for y in subterms(x):
            if y[0] == 'size' and st.truth(y) is not None:
                if is_field(y[1], DEPS) and strip_old(y[1][1]) == me:
                    st.flags[('nodeps',)] = int(not st.truth(y))
                if is_field(y[1], RULES) and strip_old(y[1][1]) == me:
                    st.flags[('norules',)] = int(not st.truth(y))
        if x[0] == 'op' and x[1] == '<' and len(x) == 4:
            self.compare(st, fr, node, x[2], x[3], v)

    def compare(self, st, fr, node, a, b, v):
        """a < b is v."""
        tsl = cur(st, self.param(fr), TS)
        own = lambda y: strip_old(y) == strip_old(tsl) or is_field(y, TS) and strip_old(strip_old(y)[1]) == self.param(fr) or \
            ('ownlm',) in st.flags and strip_old(y) == strip_old(st.flags[('ownlm',)])
        sa, sb = self.source(st, a), self.source(st, b)
        if self.each_current(st) and (sa or sb):
            x = b if sb else a
            other = a if sb else b
            src = sb or sa
            st.flags.pop(('cmp',), None)
            self.usable(st, fr, node, x, src)
            if own(other):
                # directly: the target is older than this dependent
                older = v if sb else None
                if sa:
                    older = not v
                    if older:
                        return
                    # x < target: newer for sure
                st.flags[('cmp',)] = ('direct', int(older))
                if older:
                    st.flags[('older',)] = 1
                return
            # other < x: take x; not other < x: keep other
            take = v if sb else not v
            for k, val in st.env.items():
                if k[0] == 'v' and val == other and not self.source(st, val):
                    st.flags[('cmp',)] = ('acc', k, x if take else other)
                    return
            return
        if own(a) and not own(b) or own(b) and not own(a):
            o = b if own(a) else a
            k = self.accvar(st, o)
            if k is None:
                return
            if own(a):        # own < latest
                st.flags[('older',)] = int(v)
            else:             # latest < own
                st.flags[('older',)] = 0 if v else 2       # 2: older or as old
            self.rep.ok('C07.compare', '%s:%s: the target is compared with the latest dependent' % (fr.fn.short, node.line))

    def accvar(self, st, o):
        acc = {k[1] for k in st.flags if k[0] == 'acc'}
        if o in [v for k, v in st.flags.items() if k[0] == 'acc']:
            return o
        for k, v in st.env.items():
            if v == o and (not acc or k in acc):
                return k
        return o if not acc and self.timelike(o) else None

    def usable(self, st, fr, node, x, src):
        ok = st.flags.get(('valid', strip_old(x))) == 1
        self.rep.check(ok or src == 'stat' and self.isvalid(st, x), 'C07.valid', fr, node, 'the time of a dependent is valid when it is compared',
                       'a time that may be invalid (%s) is taken as the time of a dependent: a missing or rebuilt dependent counts as old' % show(x), st)
        if src == 'field':
            pseudo = st.flags.get(('pex',)) == 1 or st.flags.get(('pcmd',)) == 0
            self.rep.check(pseudo, 'C07.pseudo', fr, node, 'the time of a dependent target is used if its file exists, or it has no commands',
                           'the time noted for a dependent is used although it may have no file and have just been built: the target would count as up to date', st)

    def isvalid(self, st, x):
        return any(k[0] == 'valid' and v == 1 and k[1] == strip_old(x) for k, v in st.flags.items())

    def write(self, eng, st, fr, node, loc, val, op):
        me = self.param(fr)
        if resname(val) == 'currentTime' and op != 'decl':
            self.nowok(st, fr, node)
            st.flags[('now',)] = 1
            st.flags[('late',)] = 1
            st.flags[('acc', 'now')] = val
        l = strip_old(loc)
        if is_field(l, TS) and strip_old(l[1]) == me:
            s = strip_old(val)
            if ('ownlm',) in st.flags and strip_old(st.flags[('ownlm',)]) == s:
                k = 'own'
            elif s[0] == 'obj' and not s[2] or s[0] == 'dflt':
                k = 'clear'
            else:
                k = 'deps'
            if k == 'deps':
                self.rep.check(st.flags.get(('exists',)) == 0 or st.flags.get(('own',)) == 0, 'C07.note', fr, node,
                               'the time of an existing target is its own', 'an existing target gets the time of its dependents', st)
            st.flags[('ts',)] = k
        if is_field(l, EXISTS) and strip_old(l[1]) == me:
            ok = val == ('c', 1) and st.flags.get(('own',)) == 1 or val == ('c', 0) and st.flags.get(('own',)) == 0 or \
                callname(val) == 'exists'
            self.rep.check(ok, 'C07.exists', fr, node, 'the existence of the file of the target is noted',
                           'the target is noted to %s although this is not known' % ('exist' if val == ('c', 1) else 'be missing'), st)
            st.flags[('bex',)] = 1
        if is_field(l, DEPS) and strip_old(l[1]) == me and op not in ('decl',):
            if is_field(val, DEPS):
                st.flags.pop(('grown',), None)
        if is_field(l, RULES) and strip_old(l[1]) == me and is_field(val, RULES):
            st.flags.pop(('norule',), None)

    def nowok(self, st, fr, node):
        cur_ = [e for e in self.each_current(st) if not self.is_rules(e)]
        if not cur_:
            return
        pseudo = st.flags.get(('pex',)) == 0 and st.flags.get(('pcmd',)) == 1
        inv = any(k[0] == 'valid' and v == 0 for k, v in st.flags.items()) or st.flags.get(('there',)) == 0
        self.rep.check(pseudo or inv, 'C07.now', fr, node, 'a target is outdated by a dependent only if this was built, or has no file',
                       'the target counts as out of date although the dependent has a time', st)

    def call(self, eng, st, fr, node, ci):
        me = self.param(fr)
        if ci.short == 'clear' and ci.rloc is not None:
            l = strip_old(ci.rloc)
            if is_field(l, TS) and strip_old(l[1]) == me:
                st.flags[('ts',)] = 'clear'
            if is_field(l, RULES) and strip_old(l[1]) == me:
                st.flags[('norule',)] = 1
        if grow_call(ci, DEPS):
            b = recv_base(ci, DEPS)
            if b is not None and strip_old(b) == me:
                st.flags[('grown',)] = 1
                st.flags[('app',)] = 1
                for e in self.each_current(st):
                    if self.is_rules(e):
                        st.flags[('cmp',)] = ('rule',)
        if ci.has('FileTime::isValid') and ci.recv is not None:
            r = strip_old(ci.recv)
            if r[0] == 'obj' and not r[2]:
                return [(st, ('c', 0))]
            if resname(r) == 'currentTime':
                return [(st, ('c', 1))]

    def each_done(self, eng, st, fr, node, elem):
        if self.is_rules(elem):
            ok = st.flags.get(('cmp',)) is not None or st.flags.get(('there',)) == 0 or st.flags.get(('known',)) == 1
            # a candidate is left out only if it is a dependent anyway, or has no file
            ok = ok or any(callname(t) == 'contains' and contains(strip_old(t), strip_old(elem)) and not vs_has(vs, 0) for t, vs in st.facts.items())
            self.rep.check(ok, 'C07.infer', fr, node, 'an inferred dependent is left out only if it has no file or is known',
                           'the dependent of an inference rule is left out although its file may exist', st)
            st.flags.pop(('there',), None)
            st.flags[('rl',)] = 1
            return
        c = st.flags.get(('cmp',))
        ok = False
        if ('now',) in st.flags:
            ok = True
        elif c is None:
            ok = False
        elif c[0] == 'acc':
            v = st.env.get(c[1])
            ok = v is not None and strip_old(v) == strip_old(c[2])
            if v is not None:
                st.flags[('acc', c[1])] = v
        elif c[0] == 'direct':
            ok = True
        self.rep.check(ok, 'C07.each', fr, node, 'the time of every dependent is taken into account',
                       'the time of a dependent is not taken into account' if c is None else 'the latest time of the dependents is lost', st)
        st.flags.pop(('there',), None)

    def each_left(self, eng, st, fr, elem):
        if self.is_rules(elem):
            return ('older',) in st.flags
        return ('late',) in st.flags or st.flags.get(('older',)) == 1

    def exit(self, eng, st, fr, node, kind, val):
        EachRule.exit(self, eng, st, fr, node, kind, val)
        if fr.parent is not None or kind != 'ret':
            return
        g = st.flags.get
        self.rep.check(('grown',) not in st.flags and ('norule',) not in st.flags, 'C07.restore', fr, node, 'the target is left as it was',
                       'the %s of the target are changed by asking whether it is up to date' % ('dependents' if ('grown',) in st.flags else 'inference rules'), st)
        again = g(('again',))
        vals = []
        if val is not None and again is not None and strip_old(val) == strip_old(again):
            tr = st.truth(val)
            vals = [None]
            if tr is False:
                return
        else:
            tr = st.truth(val) if val is not None else None
            vals = [True, False] if tr is None else [tr]
        for r in vals:
            s = st
            if tr is None and r is not None:
                s = st.copy()
                if not s.assume(val, r):
                    continue
                x, v = truths(val, r, True)
                if x[0] == 'op' and x[1] == '<':
                    self.compare(s, fr, node or fr.fn.cfg.nodes[0], x[2], x[3], v)
                elif is_field(x, EXISTS):
                    s.flags[('exists',)] = int(v)
                elif callname(x) == 'exists' and self.own(s, fr, x[2]):
                    s.flags[('own',)] = int(v)
            self.result(s, fr, node, r)

    def result(self, st, fr, node, r):
        g = st.flags.get
        there = g(('own',)) == 1 or g(('exists',)) == 1
        missing = g(('own',)) == 0 and (g(('exists',)) == 0) or g(('exists',)) == 0
        again = g(('again',))
        if r is not None and again is not None and st.truth(again) is r:
            r = None
        if r is None:      # the answer after taking inferred dependents into account
            self.rep.ok('C07.uptodate', fr.fn.short + ': asked again with the inferred dependents')
            return
        if g(('own',)) == 1:
            self.rep.check(('ts',) in st.flags, 'C07.exists', fr, node, 'the time of an existing target is noted', 'the time of the existing target is not noted', st)
        if r:
            self.rep.check(there, 'C07.uptodate', fr, node, 'a target is up to date only if it exists', 'a target is up to date although it need not exist', st)
            self.rep.check(g(('nodeps',)) == 1 or g(('older',)) == 0 and ('nowolder',) not in st.flags, 'C07.uptodate', fr, node,
                           'a target is up to date only if it is not older than its dependents',
                           'a target is up to date although it may be older than a dependent', st)
            self.rep.check(g(('norules',)) == 1 or any(k[0] == 'rulesdone' for k in st.flags) or self.rules_done(st) and ('app',) not in st.flags,
                           'C07.infer', fr, node, 'inferred dependents have been looked for',
                           'a target is up to date although dependents found by inference rules were not considered' if ('app',) not in st.flags
                           else 'an inferred dependent is found, but its time is not compared', st)
        else:
            self.rep.check(g(('older',)) in (1,) or missing, 'C07.outdated', fr, node, 'a target is out of date only if it is missing or older',
                           'a target is out of date although it exists and is not older than a dependent', st)
            if there and not missing:
                self.rep.check(g(('ts',)) == 'clear', 'C07.forget', fr, node, 'the time of an outdated target is forgotten',
                               'the old time of a target that is rebuilt is kept: its dependents compare with the file before the rebuild', st)

    def rules_done(self, st):
        return ('rl',) in st.flags


class Leaves(EachRule):
    """findAvailableTarget: every leaf that may be started is asked for, unless everything is built; until no new leaf appears."""
    EACH = 'C07.leaves'
    PER_ELEM = ('asked', 'running', 'kept')

    def each_want(self, elem):
        return False

    def ignore(self, fr):
        for p in root_frame(fr).fn.params:
            if p.get('ty') == 'bool':
                return ('p', root_frame(fr).fn.key, p['n'])
        return None

    def call(self, eng, st, fr, node, ci):
        if ci.has(UTD):
            st.flags[('scan',)] = 1
        if ci.has('DependencyGraph::removeLeaf'):
            ig = self.ignore(fr)
            if ig is not None:
                self.rep.check(st.truth(ig) is False, 'C07.all', fr, node, 'targets are left out as up to date only if times count',
                               'a target is left out as up to date although all targets are to be built (/A)', st)

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth, True)
        if is_field(x, DIRTY) or is_field(strip_old(x), DIRTY):
            st.flags[('dirty',)] = int(v)

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, DIRTY):
            st.flags[('dirty',)] = st.truth(val)
            if st.truth(val) is False:
                st.flags.pop(('scan',), None)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret' or val is None or st.truth(val) is False:
            return
        if st.val(('size', cur(st, fr.this, LEAVES))) == 0:
            return
        ig = self.ignore(fr)
        d = cur(st, fr.this, DIRTY)
        ok = ig is not None and st.truth(ig) is True or st.truth(d) is False
        self.rep.check(ok, 'C07.fresh', fr, node, 'a target is handed out only when no new leaf is unexamined',
                       'a target is handed out although it may not have been examined whether it is up to date', st)


class Examine(EachRule):
    """In the loop that asks the leaves, each one is asked."""
    EACH = 'C07.leaves'
    PER_ELEM = ('asked', 'running', 'kept', 'utd')

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.execst = enum_value(prog, 'ExecutingState')

    def each_want(self, elem):
        return is_field(strip_old(elem)[1], LEAVES)

    def after(self, eng, st, fr, node, ci, res):
        if ci.has(UTD) and ci.args:
            for e in self.each_current(st):
                if strip_old(ci.args[0]) == ('f', e, NS + NODETGT):
                    st.flags[('asked',)] = res

    def call(self, eng, st, fr, node, ci):
        if grow_call(ci) and self.each_current(st):
            for e in self.each_current(st):
                if any(strip_old(a) == e for a in ci.args):
                    st.flags[('kept',)] = 1
        if ci.has('DependencyGraph::removeLeaf') and self.each_current(st):
            st.flags[('kept',)] = 1

    def each_done(self, eng, st, fr, node, elem):
        a = st.flags.get(('asked',))
        key = ('loopasks', fr.id)
        if a is None:
            loc = ('f', elem, NS + STATE)
            if st.val(st.heap.get(loc, loc)) != self.execst:
                # a loop of another purpose, or a leaf that was passed over
                f, lid = loopctx(fr, node)
                self.passed.setdefault((fr.fn, lid), st)
            return
        f, lid = loopctx(fr, node)
        self.asks.add((fr.fn, lid))
        tr = st.truth(a)
        self.rep.check(tr is False or ('kept',) in st.flags, 'C07.drop', fr, node, 'a leaf that is up to date is left out',
                       'a target that is up to date is not left out: it would be built', st)

    def each_left(self, eng, st, fr, elem):
        return ('asked',) not in st.flags or self.found

    def exit(self, eng, st, fr, node, kind, val):
        self.found = val is not None and st.truth(val) is not False
        EachRule.exit(self, eng, st, fr, node, kind, val)


@check('C07')
def c07(prog, rep):
    rep.rule('C07.uptodate', 'a target is up to date only if its file exists, no dependent is newer, and inferred dependents were considered')
    rep.rule('C07.outdated', 'a target is out of date only if it is missing, or a dependent is newer, was built or is missing')
    rep.rule('C07.each', 'the time of every dependent is compared')
    rep.rule('C07.all', 'the loop over the dependents reaches all of them, and ends early only if the target is out of date')
    rep.rule('C07.valid', 'only valid times are compared')
    rep.rule('C07.pseudo', 'a dependent with commands that had no file makes the target out of date')
    rep.rule('C07.now', 'a dependent makes the target out of date regardless of times only if it was built or has no file')
    rep.rule('C07.exists', 'the existence and the time noted for a target are those of its file')
    rep.rule('C07.forget', 'the time of an outdated target is forgotten, it will be rebuilt')
    rep.rule('C07.note', 'only targets without file get the time of their dependents')
    rep.rule('C07.infer', 'dependents by inference rules that exist are considered')
    rep.rule('C07.restore', 'the decision leaves dependents and inference rules of the target as they were')
    rep.rule('C07.compare', 'the latest time of the dependents is compared with the time of the target')
    mon = UpToDate(prog, rep)
    run_roots(prog, rep, mon, [UTD], events=TIMEEV, noinline=TIMENOIN, small=0, limit=3000)
    rep.require('C07.each', 1)
    rep.require('C07.uptodate', 1)
    rep.rule('C07.fresh', 'a target is handed out only when all startable targets have been examined')
    rep.rule('C07.leaves', 'every startable target that is not running is examined')
    rep.rule('C07.drop', 'every examined target that is up to date is left out')
    rep.rule('C07.dirty', 'whenever a target becomes startable, it is noted that targets are to be examined')
    rep.rule('C07.order', 'comparison of times')
    rep.rule('C07.force', '/A, and only /A, makes every target be built')
    find = 'DependencyGraph::findAvailableTarget'
    ev = either(field_events(LEAVES, DIRTY, STATE), call_events(UTD, 'DependencyGraph::removeLeaf'))
    noin = (UTD, 'DependencyGraph::removeLeaf', 'Makefile::applyInferenceRules', 'DependencyGraph::displayNodeBuildInfo')
    run_roots(prog, rep, Leaves(prog, rep), [find], events=ev, noinline=noin)
    rep.require('C07.fresh', 1)
    mon = Examine(prog, rep)
    mon.passed, mon.asks = {}, set()
    run_roots(prog, rep, mon, [find], events=ev, noinline=noin)
    for (fn, lid), st in mon.passed.items():
        if (fn, lid) in mon.asks:
            rep.bad('C07.leaves', fn.short, fn.cfg.loops[lid].line, 'every leaf is examined',
                    'a startable target is passed over without examining whether it is up to date', st, file=fn.file)
    if mon.asks:
        rep.ok('C07.leaves', 'leaves are examined in ' + ', '.join(sorted(f.short for f, l in mon.asks)))
    rep.require('C07.leaves', 1)
    # whoever makes targets startable
    done = set()
    for f in prog.methods('DependencyGraph'):
        if any(LEAVES.split('::')[-1] in repr(n.b) and n.op == 'call' for n in f.cfg.nodes):
            done.add(f)
    grow = [f for f in done if any(n.op == 'call' and isinstance(n.b, dict) and (n.b.get('f') or '').split('::')[-1] in GROW
                                   and (n.b.get('o') or {}).get('n') == NS + LEAVES for n in f.cfg.nodes)]
    for f in grow:
        for r in outermost(prog, f):
            run_roots(prog, rep, Dirty(prog, rep), [r], events=either(field_events(LEAVES, DIRTY)), noinline=('Makefile::target', 'FastFileInfo::exists'), small=0)
    rep.require('C07.dirty', 1)
    order(prog, rep)
    n = 0
    for f in prog.funcs.values():
        for e in prog.call_exprs(f):
            if any(t.name == NS + find for t in prog.targets(e)) and e.get('a'):
                n += 1
    run_roots(prog, rep, Force(prog, rep, find), sorted({f.name for f in prog.funcs.values() for e in prog.call_exprs(f) if any(t.name == NS + find for t in prog.targets(e))}),
              events=call_events(find), noinline=(find,))
    rep.require('C07.force', 1)


def outermost(prog, f):
    """Functions of the same class through which a private helper is entered."""
    seen, todo, out = {f}, [f], []
    while todo:
        g = todo.pop()
        cs = [h for h, n, k in reaches(prog, [g]) if k is g and h is not g and h.cls == g.cls]
        ext = [h for h, n, k in reaches(prog, [g]) if k is g and h.cls != g.cls]
        if ext or not cs:
            out.append(g)
        if not ext:
            for h in cs:
                if h not in seen:
                    seen.add(h)
                    todo.append(h)
    return out


class Dirty(Rule):
    def call(self, eng, st, fr, node, ci):
        if grow_call(ci, LEAVES):
            st.flags[('new',)] = 1

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, DIRTY):
            if st.truth(val) is True:
                st.flags[('mark',)] = 1
            else:
                st.flags.pop(('mark',), None)
                st.flags.pop(('new',), None)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret' and ('new',) in st.flags:
            self.rep.check(('mark',) in st.flags or st.truth(cur(st, fr.this, DIRTY)) is True, 'C07.dirty', fr, node, 'new startable targets are to be examined',
                           'a target becomes startable, but will not be examined whether it is up to date', st)


class Force(Rule):
    def __init__(self, prog, rep, find):
        Rule.__init__(self, prog, rep)
        self.find = find

    def call(self, eng, st, fr, node, ci):
        if ci.has(self.find) and ci.args:
            a = strip_old(ci.args[0])
            ok = is_field(a, 'Options::buildAllTargets')
            v = st.truth(ci.args[0])
            if not ok and v is not None:
                ok = field_is(st, 'Options::buildAllTargets', v)
            self.rep.check(ok, 'C07.force', fr, node, 'the option says whether times count', 'not the option /A decides whether times count, but %s' % show(a), st)


def field_is(st, name, v):
    from .executor import field_truth
    return field_truth(st, name) is v


class Order(Rule):
    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.rets = {}

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        if fr.parent is None:
            n = callname(x)
            if n in ('operator<', 'operator=='):
                st.flags[(n, self.dirn(fr, x))] = int(v)
            elif x[0] == 'op' and x[1] in ('<', '=='):
                st.flags[('operator' + x[1], self.direction(fr, x))] = int(v)

    def dirn(self, fr, x):
        a, b = strip_old(x[2]), strip_old(x[3][0]) if x[3] else None
        return self.side(fr, a) + self.side(fr, b)

    def direction(self, fr, x):
        return self.side(fr, x[2]) + self.side(fr, x[3])

    def side(self, fr, t):
        if t is None:
            return '?'
        if contains(t, fr.this) and not any(y[0] == 'p' for y in subterms(t)):
            return 'L'
        if any(y[0] == 'p' for y in subterms(t)):
            return 'R'
        return '?'

    def after(self, eng, st, fr, node, ci, res):
        if ci.short == 'CompareFileTime' and len(ci.args) == 2:
            st.flags[('cft',)] = res
            st.flags[('cftd',)] = self.side(fr, ci.args[0]) + self.side(fr, ci.args[1])

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        op = fr.fn.name.split('::')[-1]
        x, v = truths(val, True) if val is not None else (None, None)
        if op == 'operator<':
            ok = False
            c = st.flags.get(('cft',))
            if c is not None and x is not None and x[0] == 'op' and x[1] == '<' and v:
                d = st.flags[('cftd',)]
                ok = x[2] == strip_old(c) and x[3] == ('c', 0) and d == 'LR' or x[3] == strip_old(c) and x[2] == ('c', 0) and d == 'RL'
            elif c is not None and x is not None and x[0] == 'op' and x[1] == '==' and v:
                d = st.flags[('cftd',)]
                ok = ('c', -1) in x and d == 'LR' or ('c', 1) in x and d == 'RL'
            elif c is not None and x is not None and x[0] == 'op' and any(y == strip_old(c) for y in subterms(x)):
                ok = False
            elif c is None and x is not None and x[0] == 'op' and x[1] == '<':
                ok = v and self.direction(fr, x) == 'LR'
            else:
                ok = None
            if ok is None:
                return
            self.rep.check(ok, 'C07.order', fr, node, 'earlier than', 'the comparison of two times is not "earlier than"', st)
        elif op == 'operator<=':
            tr = st.truth(val) if val is not None else None
            lt, gt = st.flags.get(('operator<', 'LR')), st.flags.get(('operator<', 'RL'))
            eq = [w for k, w in st.flags.items() if k[0] == 'operator==' and set(k[1]) == {'L', 'R'}]
            eq = eq[0] if eq else None
            if tr is None:
                n = callname(x) or (x[0] == 'op' and 'operator' + x[1]) or ''
                if n == 'operator<':
                    d = self.dirn(fr, x) if callname(x) else self.direction(fr, x)
                    ok = d == 'RL' and not v or d == 'LR' and v and eq == 0
                elif n == 'operator==':
                    ok = v and lt == 0
                else:
                    return
            elif tr:
                ok = lt == 1 or eq == 1 or gt == 0
            else:
                ok = lt == 0 and eq == 0 or gt == 1
            self.rep.check(ok, 'C07.order', fr, node, 'not later than', 'the comparison of two times is not "earlier or the same"', st)
        elif op == 'operator==':
            if x is not None and x[0] == 'op' and x[1] == '==' and v and set(self.direction(fr, x)) == {'L', 'R'}:
                self.rep.ok('C07.order', 'FileTime::operator==: same time')
            elif x is not None and x[0] == 'op' and set(self.direction(fr, x)) == {'L', 'R'}:
                self.rep.bad('C07.order', fr.fn.short, fr.fn.line, 'same time', 'the comparison of two times is not "the same"', st, file=fr.fn.file)


def order(prog, rep):
    for op in ('operator<', 'operator<=', 'operator=='):
        if prog.fns('FileTime::' + op):
            run_roots(prog, rep, Order(prog, rep), ['FileTime::' + op], events=lambda n: False, noinline=('FileTime::operator<', 'FileTime::operator=='), small=0)
    rep.require('C07.order', 2)


GROW = Engine.GROW


# ---------------------------------------------------------------- C08
class Cleared(Rule):
    """The file information of a target is dropped when its commands have finished."""

    def call(self, eng, st, fr, node, ci):
        if ci.has(FFI + 'clearCacheForFile') and ci.args:
            a = strip_old(ci.args[0])
            fn = root_frame(fr).fn
            ok = callname(a) == 'targetName' and any(y[0] == 'p' for y in subterms(a[2]))
            if ok:
                st.flags[('cleared',)] = 1
        elif ci.short.startswith('clearCache') and ci.targets and not ci.args:
            st.flags[('cleared',)] = 1
        elif ci.has('DependencyGraph::removeLeaf') or queued(ci, 'startProcesses') or ci.has('TargetExecutor::findNextTarget'):
            self.rep.check(('cleared',) in st.flags, 'C08.clear', fr, node, 'what is known about the file of a finished target is dropped first',
                           'the file of a target whose commands have finished keeps its old time: its dependents may count as up to date', st)


class Cache(Rule):
    """FastFileInfo: the cache holds only what the system said about the same file."""

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.keys = set()

    def norm(self, fr, t):
        """The key with the name of the file replaced."""
        fn = root_frame(fr).fn
        p = ('p', fn.key, fn.params[0]['n'])

        def go(x):
            if x == p:
                return 'NAME'
            if isinstance(x, tuple):
                if x and x[0] == 'r':
                    return ('r', x[3] if len(x) > 3 else '?')
                if x and x[0] == 'm':
                    return ('m', x[1].split('(')[0]) + tuple(go(y) for y in x[2:])
                if x and x[0] == 'obj':
                    return ('obj', x[1], go(x[2]))
                return tuple(go(y) for y in x)
            return x
        return go(strip_old(t))

    def is_cache(self, ci):
        if 'Hash' not in ci.name and 'Map' not in ci.name:
            return False
        return any(l is not None and any(y[0] == 'g' for y in subterms(strip_old(l))) for l in (ci.rloc, ci.recv))

    def call(self, eng, st, fr, node, ci):
        if ci.short.startswith('GetFileAttributes'):
            name = ci.args[0]
            self.rep.check(self.named(st, fr, name), 'C08.ask', fr, node, 'the system is asked for the file of that name',
                           'the system is asked for another file than the one named', st)
        if not self.is_cache(ci) or not ci.args or ci.short not in ('value', 'find', 'constFind', 'contains', 'insert', 'remove', 'take', 'operator[]', 'values'):
            return
        k = self.norm(fr, ci.args[0])
        self.keys.add(repr(k))
        if ci.short in ('insert', 'operator[]') and not ci.e.get('const'):
            ok = st.flags.get(('found',)) == 1
            self.rep.check(ok, 'C08.positive', fr, node, 'only files that were found are remembered',
                           'a file is remembered although the system may not have found it: it would count as missing when it is there later', st)

    def named(self, st, fr, t):
        """Does the term follow from the parameter?"""
        fn = root_frame(fr).fn
        p = ('p', fn.key, fn.params[0]['n'])
        return contains(strip_old(t), p) or st.flags.get(('path',)) == 1

    def after(self, eng, st, fr, node, ci, res):
        fn = root_frame(fr).fn
        p = ('p', fn.key, fn.params[0]['n'])
        if any(contains(strip_old(a), p) for a in ci.args) or ci.recv is not None and contains(strip_old(ci.recv), p):
            st.flags[('path',)] = 1
        if ci.short.startswith('GetFileAttributes'):
            st.flags[('gfa',)] = res

    def branch(self, eng, st, fr, node, t, truth):
        g = st.flags.get(('gfa',))
        if g is not None and any(y == strip_old(g) for y in subterms(strip_old(t))):
            tr = st.truth(g)
            if tr is not None:
                st.flags[('found',)] = int(tr)

    def write(self, eng, st, fr, node, loc, val, op):
        if st.flags.get(('found',)) == 0 and val[0] == 'c' and val[1] in (0xffffffff, -1):
            st.flags[('inv',)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret' and st.flags.get(('found',)) == 0:
            self.rep.check(('inv',) in st.flags, 'C08.missing', fr, node, 'a file that is not found counts as missing',
                           'the attributes of a file that is not found are not marked invalid', st)


class Reset(EachRule):
    EACH = 'C08.all'
    PER_ELEM = ('w',)

    def each_want(self, elem):
        return is_field(strip_old(elem)[1], 'Makefile::m_targets')

    def write(self, eng, st, fr, node, loc, val, op):
        l = strip_old(loc)
        for e in self.each_current(st):
            if l[0] == 'f' and contains(l[1], e) or l[0] == 'f' and l[1] == e:
                if l[2] == NS + TS and (strip_old(val)[0] == 'dflt' or strip_old(val)[0] == 'obj' and not strip_old(val)[2]):
                    st.flags[('w', 'time')] = 1
                if l[2] == NS + EXISTS and st.truth(val) is False:
                    st.flags[('w', 'exists')] = 1

    def call(self, eng, st, fr, node, ci):
        if ci.short == 'clear' and ci.rloc is not None and is_field(ci.rloc, TS):
            st.flags[('w', 'time')] = 1

    def each_done(self, eng, st, fr, node, elem):
        for w in ('time', 'exists'):
            self.rep.check(('w', w) in st.flags, 'C08.reset', fr, node, 'the %s of every target is forgotten' % w,
                           'the %s of a target is kept for the next requested target' % {'time': 'time', 'exists': 'existence'}[w], st)


class Next(Rule):
    """Between two requested targets everything known about times is forgotten."""

    def call(self, eng, st, fr, node, ci):
        if ci.has('Makefile::invalidateTimeStamps'):
            st.flags[('inv',)] = 1
        elif ci.has('DependencyGraph::build'):
            b = strip_old(ci.args[0])
            st.flags.setdefault(('built',), 0)
            self.rep.check(('inv',) in st.flags or self.first, 'C08.next', fr, node, 'times are forgotten before the next requested target',
                           'the graph of the next requested target is built with the times from before the last build', st)
            st.flags.pop(('inv',), None)


@check('C08')
def c08(prog, rep):
    rep.rule('C08.clear', 'when the commands of a target have finished, the remembered attributes of its file are dropped before anything depending on it is examined')
    rep.rule('C08.positive', 'only attributes of existing files are remembered')
    rep.rule('C08.missing', 'a file that is not found counts as missing')
    rep.rule('C08.ask', 'the system is asked for the file that is named')
    rep.rule('C08.key', 'attributes are remembered, found and dropped under the same name')
    rep.rule('C08.reset', 'time and existence of all targets are forgotten')
    rep.rule('C08.all', 'all targets are covered')
    rep.rule('C08.next', 'before the next requested target all times are forgotten')
    slots = prog.signal_slots(NS + 'CommandExecutor::finished')
    own = [f for f in slots if f.cls == NS + 'TargetExecutor'] or prog.fns('TargetExecutor::onChildFinished')
    run_roots(prog, rep, Cleared(prog, rep), own,
              events=call_events(FFI + 'clearCacheForFile', 'DependencyGraph::removeLeaf'),
              noinline=('DependencyGraph::removeLeaf', FFI + 'clearCacheForFile', 'TargetExecutor::abortBuild', 'TargetExecutor::findNextTarget',
                        'DependencyGraph::markParentsRecursivlyUnbuildable', 'DescriptionBlock::targetName'), inline=('CommandExecutor::target',))
    rep.require('C08.clear', 1)
    caches = [f for f in prog.funcs.values() if f.cls == NS + 'FastFileInfo']
    mon = Cache(prog, rep)
    for f in caches:
        if f.params and 'QString' in f.params[0].get('ty', ''):
            run_roots(prog, rep, mon, [f], events=lambda n: False, small=0)
    if len(mon.keys) > 1:
        rep.bad('C08.key', 'FastFileInfo', 0, 'one key', 'remembered attributes are stored and looked up under different names: %s' %
                ' / '.join(sorted(mon.keys)), file='jomlib/fastfileinfo.cpp')
    elif mon.keys:
        rep.ok('C08.key', 'all uses of the cache')
        rep.require('C08.positive', 1)
    mon = Reset(prog, rep)
    run_roots(prog, rep, mon, ['Makefile::invalidateTimeStamps'], events=field_events(TS, EXISTS))
    rep.require('C08.reset', 2)
    for f in [f for f in prog.methods('TargetExecutor')]:
        if any(e.get('f') == NS + 'DependencyGraph::build' for e in prog.call_exprs(f)):
            mon = Next(prog, rep)
            mon.first = f.name.endswith('::apply')
            run_roots(prog, rep, mon, [f], events=call_events('DependencyGraph::build', 'Makefile::invalidateTimeStamps'),
                      noinline=('DependencyGraph::build', 'Makefile::invalidateTimeStamps', 'TargetExecutor::findNextTarget', 'TargetExecutor::abortBuild'))
    rep.require('C08.next', 1)
