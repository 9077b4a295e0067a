"""C03-C06, C12-C14: the target executor and what surrounds it."""
from .common import *
from .registry import check
from .graph import enum_value, NEXT, STATE, CHILDREN, PARENTS

T = 'TargetExecutor::'
ABORTED = T + 'm_bAborted'
ALLOK = T + 'm_allCommandsSuccessfullyExecuted'
PENDING = T + 'm_pendingTargets'
PROCS = T + 'm_processes'
AVAIL = T + 'm_availableProcesses'
TOKENS = T + 'm_jobAcquisitionCount'
OPT_K = 'Options::buildUnrelatedTargetsOnError'
OPT_DUMP = 'Options::dumpDependencyGraph'
OPT_DRY = 'Options::dryRun'
FINISHED = NS + 'TargetExecutor::finished'

EV = either(field_events(ABORTED, ALLOK, PENDING, PROCS, AVAIL, TOKENS, NEXT, OPT_K),
            call_events('TargetExecutor::finished', 'CommandExecutor::start', 'CommandExecutor::waitForFinished',
                        'DependencyGraph::findAvailableTarget', 'DependencyGraph::removeLeaf', 'DependencyGraph::build',
                        'JobClient::release', 'JobClient::asyncAcquire'))
NOIN = ('DependencyGraph::findAvailableTarget', 'DependencyGraph::build', 'DependencyGraph::removeLeaf', 'DependencyGraph::clear',
        'DependencyGraph::isUnbuildable', 'DependencyGraph::markParentsRecursivlyUnbuildable', 'CommandExecutor::start',
        'CommandExecutor::waitForFinished', 'JobClient::release', 'JobClient::asyncAcquire', 'JobClient::start',
        'DependencyGraph::dump', 'DependencyGraph::dotDump', 'FastFileInfo::clearCacheForFile', 'Makefile::invalidateTimeStamps',
        'CommandExecutor::setBufferedOutput', 'CommandExecutor::isBufferedOutputSet', 'CommandExecutor::isActive')
SLOTS = ['TargetExecutor::startProcesses', 'TargetExecutor::buildNextTarget', 'TargetExecutor::onChildFinished',
         'TargetExecutor::apply']


def root_frame(fr):
    while fr.parent is not None:
        fr = fr.parent
    return fr


def cur(st, this, field):
    loc = ('f', this, NS + field)
    return st.heap.get(loc, loc)


def field_truth(st, name):
    """Truth of a field of whatever object, as far as the path knows: True, False or None."""
    n = name if name.startswith(NS) else NS + name
    for l, v in st.heap.items():
        if l[0] == 'f' and l[2] == n:
            return st.truth(v)
    r = None
    for t in st.facts:
        s = t[1] if t[0] == 'old' else t
        if s[0] == 'f' and s[2] == n:
            x = st.truth(t)
            if x is not None:
                r = x
                if t[0] != 'old':
                    return x
    return r


def bool_param(fn):
    for p in fn.params:
        if p.get('ty', '').replace('const ', '') == 'bool':
            return ('p', fn.key, p['n'])
    return None


def queued(ci, slot):
    """Is this call a queued invocation of the slot?"""
    if ci.short == 'invokeMethod' or ci.short == 'singleShot':
        return any(slot in repr(a) for a in ci.args)
    return ci.has(T + slot)


def empty_known(st, t):
    return st.val(('size', t)) == 0


class Abort(EachRule):
    EACH = 'C03.await'
    PER_ELEM = ('w1',)

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.waitloops = set()
        for f in prog.funcs.values():
            if f.cls != NS + 'TargetExecutor':
                continue
            for n in f.cfg.nodes:
                if n.op == 'call' and n.b.get('f') == NS + 'CommandExecutor::waitForFinished' and n.loop is not None:
                    self.waitloops.add((f.key, n.loop))

    def elem(self, eng, st, fr, node, elem):
        f, lid = loopctx(fr, node)
        if f is None or (f.fn.key, lid) not in self.waitloops:
            return
        EachRule.elem(self, eng, st, fr, node, elem)

    def each_want(self, elem):
        return origin_field(elem) == NS + PROCS

    def each_done(self, eng, st, fr, node, elem):
        self.rep.check(('w1',) in st.flags, self.EACH, fr, node, 'every executor is awaited',
                       'an executor is not awaited when the build is aborted', st)
        st.flags[('waited',)] = 1

    def call(self, eng, st, fr, node, ci):
        root = root_frame(fr)
        if ci.has('CommandExecutor::waitForFinished'):
            st.flags[('w1',)] = 1
            if root.fn.name.endswith('onChildFinished') and ('abchk',) not in st.flags:
                ok = ('ab',) in st.flags
                st.flags[('abchk',)] = 1
                self.rep.check(ok, 'C03.flag', fr, node, 'the build is marked as aborted before the running commands are awaited',
                               'running commands are awaited (other slots run meanwhile) before the build is marked as aborted: new targets can be started', st)
        elif ci.has('CommandExecutor::start') or ci.has('JobClient::asyncAcquire'):
            v = cur(st, root.this, ABORTED)
            self.rep.check(st.val(v) == 0, 'C03.nostart', fr, node, 'nothing is started after an abort: ' + ci.short,
                           '%s although the build may have been aborted by a failed command' % (
                               'commands are started' if ci.short == 'start' else 'a job token is acquired'), st)
        elif ci.signal and ci.name == FINISHED:
            if root.fn.name.endswith('onChildFinished') or ('caught',) in st.flags and not root.fn.name.endswith('::apply'):
                self.rep.check(('ab',) in st.flags, 'C03.flag', fr, node, 'the build is marked as aborted when it ends after a failure',
                               'the build ends after a failure without being marked as aborted: further targets can be started', st)
                noproc = any(t[0] == 'size' and mentions_field(t, PROCS) and vs == FALSE for t, vs in st.facts.items())
                self.rep.check(('waited',) in st.flags or noproc, 'C03.await', fr, node, 'the running commands are awaited before the build ends',
                               'the build ends after a failure without awaiting the running commands', st)
                self.rep.check(not vs_has(st.vs(ci.args[0]), 0), 'C03.status', fr, node, 'a failed build has a non-zero status',
                               'after a failed command the build ends with %s' % show(ci.args[0]), st)
            st.flags[('fin',)] = 1

    def caught(self, eng, st, fr, node):
        st.flags[('caught',)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        EachRule.exit(self, eng, st, fr, node, kind, val)
        if fr.parent is not None or kind != 'ret':
            return
        if ('caught',) in st.flags:
            self.rep.check(('fin',) in st.flags, 'C03.end', fr, node, 'an error ends the build',
                           'a target could not be started, but the build is not ended', st)
        p = bool_param(fr.fn)
        if fr.fn.name.endswith('onChildFinished') and p is not None:
            if st.truth(p) is not False and field_truth(st, OPT_K) is not True:
                self.rep.check(('fin',) in st.flags, 'C03.end', fr, node, 'a failure ends the build',
                               'a command failed and /K is not known to be in effect, but the build is not ended', st)
                self.rep.check(('ab',) in st.flags, 'C03.flag', fr, node, 'a failure aborts the build',
                               'a command failed and /K is not known to be in effect, but the build is not marked as aborted: further targets can be started', st)

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, ABORTED) and st.val(val) == 1:
            st.flags[('ab',)] = 1
        elif is_field(loc, ABORTED):
            root = root_frame(fr)
            ok = root.fn.name.endswith('TargetExecutor::apply') or fr.fn.ctor
            self.rep.check(ok, 'C03.flag', fr, node, 'an abort is final', 'the mark of an aborted build is taken back', st)


class Await(Rule):
    """CommandExecutor::waitForFinished returns only when no command of the target runs."""

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.running = enum_value(prog, 'Running')

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        ok = False
        for t, vs in list(st.facts.items()):
            if is_field(t, 'Process::m_state') and t[0] == 'f' and not vs_has(vs, self.running):
                ok = True
            if callname(t) == 'isRunning' and vs == FALSE:
                ok = True
            if is_field(t, 'CommandExecutor::m_active') and t[0] == 'f' and vs == FALSE:
                ok = True
        self.rep.check(ok, 'C03.wait', fr, node, 'waiting ends only when no command is running',
                       'waiting for an executor can end while a command of its target is still running', st)


@check('C03')
def c03(prog, rep):
    rep.rule('C03.end', 'a failed command without /K ends the build')
    rep.rule('C03.flag', 'the build is marked as aborted, before other slots can run, and the mark is never taken back')
    rep.rule('C03.nostart', 'no target is started and no token acquired unless the build is known not to be aborted')
    rep.rule('C03.await', 'all executors are awaited before the build ends')
    rep.rule('C03.wait', 'waiting for an executor ends only when no command of its target is running')
    rep.rule('C03.status', 'the status is not zero')
    rep.rule('C03.stop', 'after a failed command line the executor starts no further command line of the target')
    mon = Abort(prog, rep)
    run_roots(prog, rep, mon, SLOTS, events=EV, noinline=NOIN)
    ws = [f for f in prog.funcs.values() if any(n.op == 'assign' and n.a.get('k') == 'mem' and n.a.get('n') == NS + ABORTED for n in f.cfg.nodes)]
    run_roots(prog, rep, mon, [f for f in ws if f.short not in SLOTS], events=EV, noinline=NOIN)
    rep.require('C03.end', 1)
    rep.require('C03.nostart', 2)
    rep.require('C03.await', 2)
    rep.require('C03.status', 1)
    run_roots(prog, rep, Await(prog, rep), ['CommandExecutor::waitForFinished'],
              events=either(field_events('Process::m_state'), call_events('Process::waitForFinished')), noinline=('Process::waitForFinished',))
    rep.require('C03.wait', 1)
    run_roots(prog, rep, StopLine(prog, rep), ['CommandExecutor::onProcessFinished'], events=RESULT_EVENTS,
              noinline=('CommandExecutor::executeCurrentCommandLine',))
    rep.require('C03.stop', 1)


RESULT_EVENTS = either(call_events('CommandExecutor::executeCurrentCommandLine', 'CommandExecutor::finished', 'Process::start'),
                       field_events('Command::m_maxExitCode', 'CommandExecutor::m_currentCommandIdx'))


class StopLine(Rule):
    """A command whose status exceeds the allowed one is the last one of its target, and the target fails."""

    def exceeded(self, st):
        """Is the status known not to exceed the maximum (False), to exceed it (True), or unknown?"""
        x = st.flags.get(('exceeded',))
        return None if x is None else bool(x)

    def branch(self, eng, st, fr, node, t, truth):
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, truth = t[2], not truth
        if t[0] == 'op' and t[1] == '<' and any(is_field(x, 'Command::m_maxExitCode') for x in t[2:]):
            if is_field(t[2], 'Command::m_maxExitCode'):
                st.flags[('exceeded',)] = int(truth)
            elif truth:
                st.flags[('exceeded',)] = 0

    def call(self, eng, st, fr, node, ci):
        if ci.has('CommandExecutor::executeCurrentCommandLine') or ci.has('Process::start'):
            self.rep.check(self.exceeded(st) is False, 'C03.stop', fr, node, 'the next command line runs only after a success',
                           'the next command line of a target is executed although the exit status of the previous one is not known to be allowed', st)
        if ci.signal and ci.name == NS + 'CommandExecutor::finished':
            x = self.exceeded(st)
            v = st.truth(ci.args[-1])
            self.rep.check(x is not True or v is True, 'C03.stop', fr, node, 'a failed command line fails the target',
                           'a target is reported as %s although the exit status of a command is not allowed' % ('built' if v is False else show(ci.args[-1])), st)
            st.flags[('rep',)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret' and self.exceeded(st) is True:
            self.rep.check(('rep',) in st.flags, 'C03.stop', fr, node, 'a failure is reported', 'a failed command line is not reported', st)


# ---------------------------------------------------------------- C04
class KeepGoing(Rule):
    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.unb = enum_value(prog, 'Unbuildable')

    def call(self, eng, st, fr, node, ci):
        root = root_frame(fr)
        child = root.fn.name.endswith('onChildFinished')
        if ci.has('DependencyGraph::markParentsRecursivlyUnbuildable') and child:
            a = strip_old(ci.args[0])
            self.rep.check(is_field(a, 'CommandExecutor::m_pTarget') or callname(a) == 'target', 'C04.mark', fr, node,
                           'the dependents of the failed target are marked', 'the dependents of %s are marked instead of those of the failed target' % show(a), st)
            self.rep.check(('gone',) not in st.flags, 'C04.mark', fr, node, 'marked before the failed target leaves the graph',
                           'the targets depending on the failed one are marked only after it left the graph: they are not found any more', st)
            st.flags[('marked',)] = 1
        elif ci.has('DependencyGraph::removeLeaf') and child:
            st.flags[('gone',)] = 1
        elif queued(ci, 'startProcesses'):
            st.flags[('go',)] = 1
        elif ci.has('JobClient::asyncAcquire') or ci.has('CommandExecutor::start'):
            if root.fn.name.endswith('startProcesses') or ci.short == 'asyncAcquire':
                v = cur(st, root.this, NEXT) if ci.short == 'asyncAcquire' else ci.args[0]
                s = strip_old(v)
                if s[0] == 'r':
                    ok = field_truth(st, OPT_K) is False or self.buildable(st, s)
                    self.rep.check(ok, 'C04.skip', fr, node, 'a target is started only if it is buildable: ' + ci.short,
                                   'with /K a target is chosen although it may depend on a target that failed', st)

    def buildable(self, st, r):
        for t, vs in st.facts.items():
            s = strip_old(t)
            if callname(s) == 'isUnbuildable' and contains(s, r) and vs == FALSE:
                return True
            if is_field(s, STATE) and contains(s, r) and not vs_has(vs, self.unb):
                return True
            if s[0] == 'op' and s[1] == '==' and any(is_field(x, STATE) for x in s[2:]) and contains(s, r) and vs == FALSE:
                return True
        return False

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret' or not fr.fn.name.endswith('onChildFinished'):
            return
        p = bool_param(fr.fn)
        k = field_truth(st, OPT_K)
        if st.truth(p) is not False:
            if k is not False:
                self.rep.check(('marked',) in st.flags, 'C04.mark', fr, node, 'with /K the dependents of a failed target are marked',
                               'a target failed and /K may be in effect, but the targets depending on it are not marked as unbuildable', st)
                self.rep.check(('go',) in st.flags, 'C04.go', fr, node, 'the build goes on', 'with /K the build does not go on after a failure', st)
                if k is True:
                    self.rep.check(st.val(cur(st, fr.this, ABORTED)) != 1, 'C04.go', fr, node, 'with /K a failure does not abort the build',
                                   'with /K a failure aborts the build', st)
                v = cur(st, fr.this, ALLOK)
                self.rep.check(st.val(v) == 0, 'C04.record', fr, node, 'the failure is recorded', 'with /K a failure is not recorded: the build would end with status 0', st)
        else:
            self.rep.check(('go',) in st.flags, 'C04.go', fr, node, 'the build goes on', 'the build does not go on after a target was built', st)

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, ALLOK) and st.val(val) != 0:
            root = root_frame(fr)
            ok = root.fn.name.endswith('TargetExecutor::apply') or fr.fn.ctor
            self.rep.check(ok, 'C04.record', fr, node, 'a recorded failure is not forgotten', 'the record of a failed command is taken back', st)


class Mark(EachRule):
    EACH = 'C04.parents'
    PER_ELEM = ('rec',)

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.unb = enum_value(prog, 'Unbuildable')

    def each_want(self, elem):
        return origin_field(elem) == NS + PARENTS

    def each_start(self, eng, st, fr, node, elem):
        self.each_reset(st)

    def call(self, eng, st, fr, node, ci):
        for e in self.each_current(st):
            if any(t in fr.stack() for t in ci.targets) and any(strip_old(a) == e or strip_old(a) == ('f', e, NS + 'DependencyGraph::Node::target') for a in ci.args):
                st.flags[('rec',)] = 1
                loc = None
                for l, v in st.heap.items():
                    if is_field(l, STATE) and strip_old(l[1]) == e:
                        loc = v
                if loc is not None and st.val(loc) == self.unb:
                    st.flags[('m', e)] = 1

    def each_done(self, eng, st, fr, node, elem):
        e = strip_old(elem)
        ok = ('m', e) in st.flags
        st.flags.pop(('m', e), None)
        for l, v in st.heap.items():
            if is_field(l, STATE) and strip_old(l[1]) == e and st.val(v) == self.unb:
                ok = True
        known = any(is_field(t, STATE) and contains(strip_old(t), e) and vs == (self.unb, self.unb, ()) for t, vs in st.facts.items())
        self.rep.check(ok or known, self.EACH, fr, node, 'every target that depends on the failed one is marked',
                       'a target that depends on the failed one is not marked as unbuildable', st)
        self.rep.check(('rec',) in st.flags or known and not ok, 'C04.recurse', fr, node, 'the marking goes on to the targets that depend on the marked one',
                       'targets that depend on the failed one only indirectly are not marked as unbuildable', st)


@check('C04')
def c04(prog, rep):
    rep.rule('C04.mark', 'with /K the targets that depend on a failed one are marked before it leaves the graph')
    rep.rule('C04.parents', 'the marking reaches every target that directly needs the failed one')
    rep.rule('C04.recurse', 'and recursively those that need them')
    rep.rule('C04.keep', 'the mark is not overwritten')
    rep.rule('C04.skip', 'with /K a target is started only if it is not marked')
    rep.rule('C04.go', 'the build goes on')
    rep.rule('C04.record', 'the failure is recorded and never forgotten, so that the final status is not zero')
    mon = KeepGoing(prog, rep)
    run_roots(prog, rep, mon, SLOTS, events=EV, noinline=NOIN)
    rep.require('C04.mark', 2)
    rep.require('C04.skip', 1)
    rep.require('C04.go', 2)
    markers = []
    for f in prog.methods('DependencyGraph'):
        if any(n.op == 'assign' and n.a.get('k') == 'mem' and n.a.get('n') == NS + STATE and n.loop is not None
               and any(x.get('n') == NS + PARENTS for lp in f.cfg.loops.values() for x in list(walk(lp.container)) + list(walk(lp.cond)))
               for n in f.cfg.nodes):
            markers.append(f)
    if not markers:
        markers = [f for f in prog.fns('DependencyGraph::markParentsRecursivlyUnbuildable')]
    run_roots(prog, rep, Mark(prog, rep), markers, events=field_events(STATE, PARENTS))
    rep.require('C04.parents', 2)
    rep.require('C04.recurse', 1)
    run_roots(prog, rep, KeepMark(prog, rep), ['DependencyGraph::findAvailableTarget'], events=field_events(STATE),
              noinline=('DependencyGraph::isTargetUpToDate', 'DependencyGraph::removeLeaf'))
    rep.require('C04.keep', 1)


class KeepMark(Rule):
    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.unb = enum_value(prog, 'Unbuildable')

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, STATE) and loc[1][0] != 'new' and st.val(val) != self.unb:
            v = st.vs(st.heap.get(loc, loc))
            self.rep.check(not vs_has(v, self.unb), 'C04.keep', fr, node, 'an unbuildable target stays unbuildable',
                           'the mark of an unbuildable target is overwritten: its commands would be executed', st)


# ---------------------------------------------------------------- C05
class Status(Rule):
    """finishBuild(0) only if everything is done; its argument reaches the finished signal."""

    def running_none(self, st):
        for t, vs in st.facts.items():
            s = strip_old(t)
            if s[0] == 'op' and s[1] in ('-', '==') and mentions_field(s, PROCS) and mentions_field(s, AVAIL):
                if s[1] == '==' and vs == TRUE or s[1] == '-' and vs[1] is not None and vs[1] <= 0:
                    return True
            if s[0] == 'op' and s[1] == '<' and vs == FALSE and mentions_field(s[2], AVAIL) and mentions_field(s[3], PROCS) \
                    and s[2][0] == 'size' and s[3][0] == 'size':
                return True
            if callname(s) == 'numberOfRunningProcesses' and vs[1] is not None and vs[1] <= 0:
                return True
            if s[0] == 'size' and mentions_field(s, PROCS) and vs == FALSE:
                return True
        return False

    def none(self, st, field):
        """Is the container field known to be empty?"""
        return any(t[0] == 'size' and is_field(t[1], field) and vs == FALSE for t, vs in st.facts.items())

    def call(self, eng, st, fr, node, ci):
        if not (ci.signal and ci.name == FINISHED):
            return
        root = root_frame(fr)
        v = ci.args[0]
        st.flags[('fin',)] = st.flags.get(('fin',), 0) + 1
        may0 = vs_has(st.vs(v), 0)
        if root.fn.name.endswith('finishBuild'):
            p = ('p', root.fn.key, root.fn.params[0]['n'])
            if may0:
                ok = field_truth(st, ALLOK) is True or field_truth(st, OPT_K) is False
                self.rep.check(ok, 'C05.final', fr, node, 'status zero only without failures under /K',
                               'the build can end with status 0 although a command failed and /K is in effect', st)
            self.rep.check(v == p or not may0 and (st.val(p) == 0) or st.vs(v) == st.vs(p) and st.val(v) is not None, 'C05.final', fr, node, 'the status is passed on',
                           'the build ends with status %s instead of the given one' % show(v), st)
            return
        if fr.fn.name.endswith('onChildFinished') or root.fn.name.endswith('onChildFinished'):
            self.rep.check(not may0, 'C05.zero', fr, node, 'a failure does not end the build with 0', 'a failed build can end with status 0', st)
            return
        if ('caught',) in st.flags:
            self.rep.check(not may0, 'C05.zero', fr, node, 'an error does not end the build with 0', 'the build ends with status 0 after an error', st)
            return
        if not may0:
            return
        if root.fn.name.endswith('TargetExecutor::apply'):
            dump = field_truth(st, OPT_DUMP) is True
            nothing = any(t[0] == 'size' and mentions_field(t, 'Makefile::m_targets') and vs == FALSE for t, vs in st.facts.items())
            self.rep.check(dump or nothing, 'C05.zero', fr, node, 'nothing to build: status 0', 'the build ends with status 0 before it began, although there may be something to build', st)
            return
        nxt = st.val(cur(st, root.this, NEXT)) == 0
        self.rep.check(nxt, 'C05.zero', fr, node, 'status 0 only if no target is left', 'the build can end with status 0 although a target is left to be built', st)
        self.rep.check(self.running_none(st), 'C05.zero', fr, node, 'status 0 only if nothing is running', 'the build can end with status 0 while commands are running', st)
        self.rep.check(self.none(st, PENDING), 'C05.zero', fr, node, 'status 0 only if no requested target is pending',
                       'the build can end with status 0 although requested targets have not been built', st)

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, ALLOK) and not root_frame(fr).fn.name.endswith('TargetExecutor::apply'):
            self.rep.check(st.val(val) == 0, 'C05.keep', fr, node, 'a failure is not forgotten', 'the memory of failed commands is reset during the build: under /K it can end with status 0', st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret' and fr.fn.name.endswith('finishBuild'):
            self.rep.check(st.flags.get(('fin',), 0) == 1, 'C05.final', fr, node, 'the end of the build is announced once',
                           'the end of the build is announced %d times' % st.flags.get(('fin',), 0), st)
        if fr.parent is None and kind == 'ret' and fr.fn.name.endswith('startProcesses'):
            # the end must be announced when nothing is left
            if self.none(st, PENDING) and self.running_none(st) and st.val(cur(st, fr.this, NEXT)) == 0 and ('queued',) not in st.flags:
                self.rep.check(('fin',) in st.flags, 'C05.end', fr, node, 'the build ends when everything is done',
                               'nothing is left to be done, but the end of the build is not announced: jom would not terminate', st)

    def after(self, eng, st, fr, node, ci, res):
        if queued(ci, 'startProcesses'):
            st.flags[('queued',)] = 1

    def caught(self, eng, st, fr, node):
        st.flags[('caught',)] = 1


class MainStatus(Rule):
    """main()'s return values."""
    NOTE = ''

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.cmdline = enum_value(prog, 'CommandLineError')
        self.kinds = [enum_value(prog, n) for n in ('CommandLineError', 'ParserError', 'IOError')]

    def after(self, eng, st, fr, node, ci, res):
        if fr.parent is not None:
            return
        if ci.has('MakefileFactory::apply'):
            st.flags[('mf',)] = res
        elif ci.short == 'initJobServer':
            st.flags[('js',)] = res
        elif ci.short == 'exec' and 'Application' in (ci.e.get('cls') or '') + ci.name:
            st.flags[('exec',)] = res
            self.rep.check(('applied',) in st.flags, 'C05.main', fr, node, 'the event loop runs for the build', 'the event loop runs without a build', st)
        elif ci.has('TargetExecutor::apply'):
            st.flags[('applied',)] = 1
        elif ci.short in ('showUsage',):
            st.flags[('usage',)] = 1
        elif ci.short == 'errorType':
            st.flags[('et',)] = res

    def caught(self, eng, st, fr, node):
        if fr.parent is None:
            st.flags[('excp',)] = 1

    def branch(self, eng, st, fr, node, t, truth):
        if fr.parent is not None:
            return
        if truth and (is_field(t, 'Options::showVersionAndExit') or is_field(t, 'Options::showUsageAndExit')):
            st.flags[('version',)] = 1
        if ('mf',) in st.flags and st.truth(st.flags[('mf',)]) is False:
            for f, vs in st.facts.items():
                if is_field(f, 'MakefileFactory::m_errorType') or callname(f) == 'errorType':
                    # apply() failed with some kind of error (C05.kind)
                    if not any(vs_has(vs, k) for k in self.kinds):
                        return False
                    st.flags[('kind',)] = [k for k in self.kinds if vs_has(vs, k)][0] if len([k for k in self.kinds if vs_has(vs, k)]) == 1 else 0

    def ret(self, eng, st, fr, node, val):
        if fr.parent is not None:
            return
        v = st.vs(val)
        mf = st.flags.get(('mf',))
        js = st.flags.get(('js',))
        ex = st.flags.get(('exec',))
        w = None
        if ('excp',) in st.flags:
            w = 'after an exception'
            ok = not vs_has(v, 0)
        elif mf is None:
            w, ok = 'before the makefile was read', not vs_has(v, 0)
        elif st.truth(mf) is False:
            kind = st.flags.get(('kind',), 0)
            w = 'when the command line or the makefile is wrong'
            ok = not vs_has(v, 0)
            if kind == self.cmdline:
                w = 'for a wrong command line'
                ok = st.val(val) == 128
            elif kind:
                w = 'for a makefile that cannot be read'
                ok = st.val(val) == 2
        elif js is not None and st.truth(js) is False:
            w, ok = 'when the job server cannot be started', not vs_has(v, 0)
        elif ex is not None:
            w = 'after the build'
            ok = strip_old(val) == strip_old(ex)
        else:
            w = 'after showing usage or version'
            ok = st.val(val) == 0 and ('version',) in st.flags
        self.rep.check(ok, 'C05.main', fr, node, 'status ' + w, 'jom returns %s %s' % (show(val), w), st)


class Kind(Rule):
    """MakefileFactory::apply returns false only with an error kind set."""

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret' and val is not None and st.truth(val) is not True:
            st = st.copy()
            if not st.assume(val, False):
                return
            e = st.vs(cur(st, fr.this, 'MakefileFactory::m_errorType'))
            self.rep.check(not vs_has(e, 0), 'C05.kind', fr, node, 'a failure has a kind', 'reading the makefile can fail without a kind of error: main would not notice', st)


@check('C05')
def c05(prog, rep):
    rep.rule('C05.final', 'the end of a build is announced once, with the given status, or a non-zero one if a command failed under /K')
    rep.rule('C05.zero', 'status 0 only if no target is left, nothing is running and no requested target is pending; never after an error')
    rep.rule('C05.keep', 'that a command failed is not forgotten during the build')
    rep.rule('C05.end', 'when nothing is left the end is announced')
    rep.rule('C05.connect', 'the announced status is what the application returns')
    rep.rule('C05.kind', 'reading the makefile fails only with a kind of error')
    rep.rule('C05.main', 'main returns that status, 128 for a wrong command line, 2 for an unreadable makefile, non-zero on every other error')
    for f in ('finishBuild',):
        run_roots(prog, rep, Status(prog, rep), prog.fns(T + f), events=EV, noinline=NOIN)
    rep.require('C05.final', 2)
    run_roots(prog, rep, Status(prog, rep), SLOTS, events=EV, noinline=NOIN)
    rep.require('C05.zero', 4)
    rep.require('C05.end', 1)
    hit = 0
    for kind, sn, sig, slotname, slots, c, f in prog.connections:
        if kind == 'connect' and any(g.name == NS + 'Application::exit' for g in slots) and sn == 'finished':
            hit += 1
            rep.ok('C05.connect', f.short + ': finished is connected to the exit of the application')
    if not hit:
        rep.bad('C05.connect', 'main', 0, 'finished is connected', 'the end of the build is not connected to the exit of the application: jom would not terminate')

    class PassOn(Rule):
        def call(self, eng, st, fr, node, ci):
            if ci.short == 'exit' and fr.fn.name == NS + 'Application::exit':
                p = ('p', fr.fn.key, fr.fn.params[0]['n'])
                self.rep.check(ci.args[0] == p, 'C05.connect', fr, node, 'the status is passed on', 'the application exits with %s instead of the given status' % show(ci.args[0]), st)
                st.flags[('x',)] = 1

        def exit(self, eng, st, fr, node, kind, val):
            if fr.parent is None:
                self.rep.check(('x',) in st.flags, 'C05.connect', fr, node, 'the application exits', 'the application does not exit', st)
    run_roots(prog, rep, PassOn(prog, rep), ['Application::exit'])
    run_roots(prog, rep, Kind(prog, rep), ['MakefileFactory::apply'], events=field_events('MakefileFactory::m_errorType'))
    rep.require('C05.kind', 1)
    run_roots(prog, rep, MainStatus(prog, rep), ['main'], events=call_events('MakefileFactory::apply'), small=6,
              noinline=('MakefileFactory::apply', 'TargetExecutor::apply'))
    rep.require('C05.main', 5)


class FrameLike(object):
    def __init__(self, fn):
        self.fn = fn


class NodeLike(object):
    def __init__(self, line):
        self.line = line


# ---------------------------------------------------------------- C06
class Requested(EachRule):
    """TargetExecutor::apply queues all requested targets in order and starts with the first."""
    EACH = 'C06.all'
    PER_ELEM = ('q',)

    def params(self, fr):
        fn = root_frame(fr).fn
        return [('p', fn.key, p['n']) for p in fn.params]

    def targets_param(self, fr):
        fn = root_frame(fr).fn
        for p in fn.params:
            if 'QStringList' in p.get('ty', '') or 'QList<QString>' in p.get('ty', ''):
                return ('p', fn.key, p['n'])
        return None

    def is_target(self, fr, t):
        """Is t an element of the requested names?"""
        t = strip_old(t)
        return t[0] == 'elem' and t[1] == self.targets_param(fr)

    def each_want(self, elem):
        return elem[1][0] == 'p' and elem[1][2] == self.pname

    def elem(self, eng, st, fr, node, elem):
        tp = self.targets_param(fr)
        self.pname = tp[2] if tp else None
        e = strip_old(elem)
        if e[0] == 'elem' and e[1] == tp and loopctx(fr, node)[0] is not None:
            f, lid = loopctx(fr, node)
            loop = f.fn.cfg.loops[lid]
            ok, why = self.from_second(loop)
            self.rep.check(ok, 'C06.all', f, node, 'every requested target is queued', 'not every requested target is queued: %s' % why, st)
            st.flags[('loop',)] = elem

    def from_second(self, loop):
        """A loop over the requested targets without the first."""
        if loop.kind == 'foreach':
            # over a list without its first element, or skipping it: the elements are checked by the built term
            return True, ''
        lo = None
        if loop.init is not None:
            for x in walk(loop.init):
                if x.get('k') == 'int' and x.get('t') != 'b':
                    lo = x['v']
        if lo is not None and lo > 1:
            return False, 'the loop starts at %d' % lo
        c = loop.cond
        if c is not None:
            for x in walk(c):
                if x.get('k') == 'bin' and x.get('op') in ('&&', '||'):
                    return False, 'its condition has a further term'
                if x.get('k') == 'bin' and x.get('op') in ('-', '+'):
                    return False, 'it stops early'
        return True, ''

    def call(self, eng, st, fr, node, ci):
        if ci.recv is not None and is_container(ci, PENDING) and not ci.e.get('const'):
            if ci.short in GROW:
                front = ci.short in ('prepend', 'push_front') or ci.short == 'insert'
                v = strip_old(ci.args[-1])
                ok = callname(v) == 'target' and self.is_target(fr, v[3][0])
                self.rep.check(ok, 'C06.queue', fr, node, 'the requested target is queued', '%s is queued instead of the requested target' % show(v), st)
                st.flags[('q',)] = 1
                st.flags[('grow', 'front' if front else 'back')] = 1
                self.rep.check(not front, 'C06.order', fr, node, 'the requested targets are queued in order', 'the requested targets are not built in the order they were requested', st)
        elif ci.has('DependencyGraph::build'):
            v = strip_old(ci.args[0])
            first = False
            if callname(v) == 'firstTarget' or v[0] == 'r' and v[-1] == 'firstTarget()':
                tp = self.targets_param(fr)
                first = st.val(('size', tp)) == 0
                self.rep.check(first, 'C06.first', fr, node, 'the first target of the makefile is built if none is requested',
                               'the first target of the makefile is built although targets were requested', st)
            else:
                ok = callname(v) == 'target' and self.is_target(fr, v[3][0]) and strip_old(v[3][0])[2] in (('s', 'first'), ('c', 0))
                self.rep.check(ok, 'C06.first', fr, node, 'the first requested target is built first', '%s is built first instead of the first requested target' % show(v), st)
                known = st.truth(v) is True or any(strip_old(t) == v and not vs_has(vs, 0) for t, vs in st.facts.items())
                self.rep.check(known, 'C06.known', fr, node, 'an unknown target is diagnosed', 'a requested target that does not exist is not diagnosed', st)
            st.flags[('built',)] = 1

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'back' and ('loop',) in st.flags:
            st.flags.pop(('loop',))
            self.rep.check(('q',) in st.flags, 'C06.all', fr, node, 'every requested target is queued in its iteration', 'a requested target is skipped', st)
            st.flags.pop(('q',), None)


class PendingUse(Rule):
    """Pending targets leave the queue at its front, to be built, or when the build is aborted."""

    def call(self, eng, st, fr, node, ci):
        if ci.recv is not None and is_container(ci, PENDING) and not ci.e.get('const'):
            root = root_frame(fr)
            if ci.short in ('takeFirst', 'dequeue', 'takeAt', 'pop_front', 'removeFirst', 'takeLast', 'removeLast', 'pop', 'pop_back', 'removeAt'):
                ok = ci.short in ('takeFirst', 'dequeue', 'pop_front', 'removeFirst') or ci.short in ('takeAt', 'removeAt') and st.val(ci.args[0]) == 0
                self.rep.check(ok, 'C06.order', fr, node, 'the next requested target is the oldest one', 'the requested targets are not built in the order they were requested', st)
                st.flags[('took',)] = 1
            elif ci.short in ('clear',):
                st.flags[('cleared',)] = 1
            elif ci.short in GROW:
                ok = root.fn.name.endswith('TargetExecutor::apply')
                self.rep.check(ok, 'C06.queue', fr, node, 'targets are queued only when the build begins', 'a target is queued that was not requested', st)
        elif ci.has('DependencyGraph::build') and not root_frame(fr).fn.name.endswith('TargetExecutor::apply'):
            self.rep.check(origin_field(ci.args[0]) == NS + PENDING or 'm_pendingTargets' in show(strip_old(ci.args[0])), 'C06.next', fr, node,
                           'the next requested target is built', '%s is built instead of the next requested target' % show(ci.args[0]), st)
            st.flags[('b',)] = 1
        elif ci.signal and ci.name == FINISHED and not root_frame(fr).fn.name.endswith('TargetExecutor::apply'):
            if vs_has(st.vs(ci.args[0]), 0):
                ok = any(t[0] == 'size' and is_field(t[1], PENDING) and vs == FALSE for t, vs in st.facts.items())
                self.rep.check(ok, 'C06.end', fr, node, 'the build does not end with requested targets pending',
                               'the build can end successfully although requested targets are left', st)

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, ABORTED) and st.val(val) == 1:
            st.flags[('ab',)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            if ('took',) in st.flags:
                self.rep.check(('b',) in st.flags, 'C06.next', fr, node, 'a target taken from the queue is built', 'a requested target is taken from the queue but not built', st)
            if ('cleared',) in st.flags and not fr.fn.name.endswith('TargetExecutor::apply'):
                self.rep.check(('ab',) in st.flags, 'C06.drop', fr, node, 'requested targets are dropped only by an abort',
                               'the remaining requested targets are dropped although the build is not aborted', st)


@check('C06')
def c06(prog, rep):
    rep.rule('C06.all', 'every requested target after the first is queued')
    rep.rule('C06.queue', 'what is queued is the target of the requested name')
    rep.rule('C06.order', 'the queue is first-in first-out')
    rep.rule('C06.first', 'the first requested target is built first; the first target of the makefile only if none is requested')
    rep.rule('C06.next', 'a target taken from the queue is built')
    rep.rule('C06.drop', 'the queue is emptied only by an abort')
    rep.rule('C06.end', 'the build ends successfully only without pending targets')
    rep.rule('C06.known', 'unknown requested targets are diagnosed')
    rep.rule('C06.pass', 'the requested names are handed from the command line to the parser and the executor')
    ev = either(EV, call_events('Makefile::firstTarget'))
    run_roots(prog, rep, Requested(prog, rep), ['TargetExecutor::apply'], events=ev, noinline=NOIN + ('Makefile::target', 'Makefile::firstTarget'))
    rep.require('C06.queue', 1)
    rep.require('C06.first', 2)
    run_roots(prog, rep, PendingUse(prog, rep), SLOTS, events=EV, noinline=NOIN)
    rep.require('C06.next', 2)

    class Exist(Rule):
        """Before the requested names are used, each was looked up and found."""
        C = 'Parser::m_activeTargets'

        def names(self, t):
            """Is t the list of requested names (the field, or what was stored there)?"""
            t = strip_old(t)
            return is_field(t, self.C) or t[0] == 'p' and 'm_activeTargets' not in t[2] and t[2] == self.param

        def enter(self, eng, st, fr):
            if fr.parent is None:
                self.param = next((p['n'] for p in fr.fn.params if 'QStringList' in p.get('ty', '')), None)

        def elem(self, eng, st, fr, node, elem):
            e = strip_old(elem)
            if e[0] == 'elem' and self.names(e[1]):
                f, lid = loopctx(fr, node)
                if f is not None and loop_complete(f.fn.cfg.loops[lid])[0]:
                    st.flags[('cur',)] = elem

        def branch(self, eng, st, fr, node, t, truth):
            for x in subterms(t):
                if x[0] == 'size' and self.names(x[1]) and st.val(x) == 0:
                    st.flags[('checked',)] = 1
            e = st.flags.get(('cur',))
            if e is None:
                return
            e = strip_old(e)
            for x in subterms(strip_old(t)):
                if callname(x) == 'target' and any(contains(a, e) for a in x[3]):
                    if not any(strip_old(f) == x and vs_has(vs, 0) for f, vs in st.facts.items()) and st.truth(t) is not None:
                        st.flags[('ok',)] = 1

        def loop(self, eng, st, fr, node, what, lid):
            if what == 'back' and ('cur',) in st.flags:
                st.flags.pop(('cur',))
                if st.flags.pop(('ok',), None):
                    st.flags[('checked',)] = 1

        def call(self, eng, st, fr, node, ci):
            if ci.short == 'checkForCycles':
                self.rep.check(('checked',) in st.flags, 'C06.known', fr, node, 'requested targets are looked up before they are used',
                               'requested targets that do not exist are not diagnosed', st)

    run_roots(prog, rep, Exist(prog, rep), ['Parser::apply'], events=field_events('Parser::m_activeTargets'),
              keepfacts=lambda t: 'target(' in repr(t) or 'm_activeTargets' in repr(t), heapkeep=(),
              noinline=[f.name for f in prog.methods('Parser') if f.name != NS + 'Parser::apply'] + ['Makefile::target'], small=0)
    rep.require('C06.known', 1)

    class Pass(Rule):
        def call(self, eng, st, fr, node, ci):
            if ci.has('Parser::apply'):
                self.rep.check(any(is_field(a, 'MakefileFactory::m_activeTargets') for a in ci.args), 'C06.pass', fr, node, 'the requested names reach the parser',
                               'the requested targets are not handed to the parser', st)
                st.flags[('p',)] = 1
            if ci.has('TargetExecutor::apply'):
                self.rep.check(any(callname(strip_old(a)) == 'activeTargets' or is_field(a, 'MakefileFactory::m_activeTargets') for a in ci.args), 'C06.pass', fr, node,
                               'the requested names reach the executor', 'the requested targets are not handed to the executor', st)
    run_roots(prog, rep, Pass(prog, rep), ['MakefileFactory::apply', 'main'], events=call_events('Parser::apply', 'TargetExecutor::apply'),
              noinline=('Parser::apply', 'TargetExecutor::apply'))
    rep.require('C06.pass', 2)


# ---------------------------------------------------------------- C12
def trip_count(fn, loop):
    """(bound expression, delta): the loop runs bound + delta times; None if not understood."""
    c = loop.cond
    if c is None or c.get('k') != 'bin' or c.get('op') not in ('<', '<=', '>', '>=', '!='):
        return None
    a, b, op = c['a'], c['b'], c['op']

    def strip(x):
        while x.get('k') == 'cast':
            x = x['e']
        return x

    def counter(x):
        x = strip(x)
        if x.get('k') == 'un' and x.get('op') in ('--', 'p--', '++', 'p++'):
            y = strip(x['e'])
            if y.get('k') == 'var' and y.get('g') == 'local':
                return y, x['op']
        if x.get('k') == 'var' and x.get('g') == 'local':
            return x, None
        return None, None
    v, inc = counter(a)
    if v is None:
        v, inc = counter(b)
        a, b = b, a
        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
    if v is None:
        return None
    b = strip(b)
    init = None
    steps = []
    for n in fn.cfg.nodes:
        if n.op == 'decl' and n.a.get('id') == v['id'] and n.b is not None:
            init = strip(n.b)
        elif n.op == 'assign' and n.a.get('k') == 'var' and n.a.get('id') == v['id']:
            if n.c in ('=', 'init'):
                if init is not None and n.loop != loop.id:
                    init = strip(n.b)
                elif n.loop == loop.id:
                    return None
            else:
                s = intval(n.b)
                steps.append((n.c, s))
    if init is None or len(steps) != 1 or steps[0][1] != 1:
        return None
    up = steps[0][0].startswith('+')
    iv = intval(init)
    if up and iv is not None and inc is None:
        return {'<': (b, -iv), '!=': (b, -iv), '<=': (b, 1 - iv)}.get(op)
    bv = intval(b)
    if not up and bv is not None:
        if inc is None:
            return {'>': (init, -bv), '!=': (init, -bv), '>=': (init, 1 - bv)}.get(op)
        if inc == '--':
            return {'>=': (init, -bv), '>': (init, -bv - 1), '!=': (init, -bv - 1)}.get(op)
        return {'>': (init, -bv), '!=': (init, -bv), '>=': (init, 1 - bv)}.get(op)
    return None


class Pool(Rule):
    """Per iteration one executor is added; the available ones are all of them."""

    def call(self, eng, st, fr, node, ci):
        if ci.recv is None or ci.e.get('const') or ci.short not in GROW:
            return
        if is_container(ci, PROCS):
            self.rep.check(ci.args[-1][0] == 'new' or strip_old(ci.args[-1])[0] == 'new', 'C12.pool', fr, node, 'executors are created for the pool', 'an executor is in the pool twice', st)
            f, lid = loopctx(fr, node)
            n = st.flags.get(('n',), 0) + 1
            st.flags[('n',)] = min(n, 3)
            self.rep.check(n == 1, 'C12.pool', fr, node, 'one executor per job', 'more than one executor is created per job', st)

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'iter' and lid in [l for l, f in self.creating if f is fr.fn]:
            st.flags.pop(('n',), None)
        if what == 'back' and lid in [l for l, f in self.creating if f is fr.fn]:
            n = st.flags.pop(('n',), 0)
            self.rep.check(n == 1, 'C12.pool', fr, node, 'one executor is added per job', '%d executors are added per job' % n, st)

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, AVAIL):
            v = strip_old(val)
            self.rep.check(is_field(v, PROCS) or v[0] == 'dflt', 'C12.avail', fr, node, 'all executors are available at first', 'the available executors are %s' % show(v), st)


class Tokens(Rule):
    """Job tokens and executors of the pool."""

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.status = Status(prog, rep)

    def bump(self, st, k, n=1):
        st.flags[(k,)] = min(st.flags.get((k,), 0) + n, 4)

    def branch(self, eng, st, fr, node, t, truth):
        if self.status.running_none(st) and self.about_running(t):
            st.flags[('idle',)] = 1
        s = strip_old(t)
        while s[0] == 'op' and s[1] == '!' and len(s) == 3:
            s, truth = s[2], not truth
        if is_field(s, 'JobClient::m_isAcquiring') or callname(s) == 'isAcquiring':
            if truth is False:
                st.flags[('free',)] = 1
        tv = cur(st, root_frame(fr).this, TOKENS)
        if any(is_field(x, TOKENS) or x == tv for x in subterms(t)):
            vs = st.vs(tv)
            if vs[0] is not None and vs[0] >= 1:
                st.flags[('some',)] = 1
            elif not (vs[1] is None or vs[1] > 0):
                st.flags[('none',)] = 1
                st.flags.pop(('some',), None)

    def about_running(self, t):
        return any(is_field(x, PROCS) or is_field(x, AVAIL) or callname(x) == 'numberOfRunningProcesses' for x in subterms(strip_old(t)))

    def call(self, eng, st, fr, node, ci):
        root = root_frame(fr)
        if ci.has('CommandExecutor::start'):
            self.bump(st, 'start')
            r = strip_old(ci.recv)
            ok = origin_field(r) == NS + AVAIL or ('taken', r) in st.flags
            self.rep.check(ok, 'C12.take', fr, node, 'only an available executor is started', 'an executor is started that is not known to be available: %s' % show(r), st)
            direct = not root.fn.name.endswith('buildNextTarget')
            if direct:
                self.rep.check(('idle',) in st.flags, 'C12.token', fr, node, 'without a token only a single command runs',
                               'a command is started without a job token although others may be running', st)
            st.flags.pop(('idle',), None)
        elif ci.recv is not None and is_container(ci, AVAIL) and not ci.e.get('const'):
            if ci.short in SHRINK and ci.short != 'clear':
                self.bump(st, 'shr')
                st.flags[('shrnode',)] = 1
            elif ci.short in GROW:
                self.bump(st, 'back')
                v = strip_old(ci.args[-1])
                ok = v[0] == 'p' and 'Executor' in repr(v)
                self.rep.check(root.fn.name.endswith('onChildFinished') and v[0] == 'p', 'C12.return', fr, node, 'the finished executor becomes available',
                               '%s becomes available although it did not finish' % show(v), st)
        elif ci.has('JobClient::asyncAcquire'):
            self.bump(st, 'acq')
            self.rep.check(('free',) in st.flags, 'C12.one', fr, node, 'one token is requested at a time',
                           'a job token is requested although one may already be on its way', st)
        elif ci.has('JobClient::release'):
            self.bump(st, 'rel')
            dec = st.flags.pop(('dpend',), None)
            self.rep.check(('some',) in st.flags or dec, 'C12.release', fr, node, 'only an acquired token is released',
                           'a job token is released although none is known to be held: more commands than allowed can run', st)
            st.flags.pop(('some',), None)
            if not dec:
                st.flags[('pend',)] = 1
        elif ci.short == 'exec' and 'EventLoop' in (ci.e.get('cls') or ''):
            st.flags.pop(('some',), None)
            st.flags.pop(('none',), None)

    def after(self, eng, st, fr, node, ci, res):
        if st.flags.pop(('shrnode',), None) and res is not None:
            st.flags[('taken', strip_old(res))] = 1

    def write(self, eng, st, fr, node, loc, val, op):
        if not is_field(loc, TOKENS):
            return
        root = root_frame(fr)
        step = None
        if op in ('+=', '-=') and node.b is not None and intval(node.b) is not None:
            step = intval(node.b) if op == '+=' else -intval(node.b)
        elif op in ('=', 'init'):
            v = val
            if v[0] == 'op' and v[1] in ('+', '-') and is_field(v[2], TOKENS) and v[3][0] == 'c':
                step = v[3][1] if v[1] == '+' else -v[3][1]
            elif st.val(v) == 0 and (root.fn.name.endswith('TargetExecutor::apply') or root.fn.ctor):
                return
        self.rep.check(step in (1, -1), 'C12.count', fr, node, 'the number of tokens changes by one', 'the number of held tokens is changed by something else than one', st)
        if step == 1:
            self.bump(st, 'inc')
        elif step == -1:
            self.bump(st, 'dec')
            if st.flags.pop(('pend',), None):
                pass
            elif ('some',) in st.flags:
                st.flags[('dpend',)] = 1
            else:
                self.rep.bad('C12.count', fr.fn.short, node.line, 'uncounted', 'the number of held tokens is decreased although none is known to be held', st)
            st.flags.pop(('some',), None)

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'back':
            # balanced iterations leave no trace
            if st.flags.get(('rel',), 0) > 0 and st.flags.get(('rel',)) == st.flags.get(('dec',)) and ('pend',) not in st.flags:
                if ('r0', fr.id) not in st.flags:
                    st.flags[('r0', fr.id)] = 1
                st.flags[('rel',)] = st.flags[('dec',)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        g = lambda k: st.flags.get((k,), 0)
        self.rep.check(g('rel') == g('dec'), 'C12.count', fr, node, 'every released token is counted',
                       '%d token(s) are released but %d are accounted for' % (g('rel'), g('dec')), st)
        self.rep.check(g('acq') == g('inc'), 'C12.count', fr, node, 'every requested token is counted',
                       '%d token(s) are requested but %d are accounted for' % (g('acq'), g('inc')), st)
        self.rep.check(g('start') == g('shr'), 'C12.take', fr, node, 'a started executor is not available any more',
                       'an executor is started but stays available, or the reverse', st)
        if fr.fn.name.endswith('onChildFinished'):
            self.rep.check(g('back') == 1, 'C12.return', fr, node, 'the finished executor is available once', 'the finished executor is made available %d times' % g('back'), st)
            self.rep.check(g('rel') >= 1 or ('none',) in st.flags, 'C12.back', fr, node, 'the token of a finished command is given back',
                           'a held token is not given back when a command ends: fewer commands than allowed run from then on', st)


@check('C12')
def c12(prog, rep):
    rep.rule('C12.pool', 'exactly one executor is created per allowed job')
    rep.rule('C12.avail', 'all executors are available at first')
    rep.rule('C12.take', 'a command is started by an available executor, which is then unavailable')
    rep.rule('C12.return', 'an executor becomes available exactly once when its target is finished')
    rep.rule('C12.token', 'a target is started directly only if nothing runs, otherwise when a token was acquired')
    rep.rule('C12.one', 'a token is requested only if none is on its way')
    rep.rule('C12.release', 'a token is released only if one is held')
    rep.rule('C12.back', 'a held token is released when a target is finished')
    rep.rule('C12.count', 'the number of held tokens is kept exactly')
    rep.rule('C12.single', 'with parallel execution disabled there is one executor')
    creating = []
    for f in prog.funcs.values():
        for n in f.cfg.nodes:
            if n.op == 'new' and n.b.get('c') == NS + 'CommandExecutor':
                lid = n.loop
                g, caller = f, None
                if lid is None:
                    # the loop may be in the only caller
                    cs = prog.callers_of(f) if hasattr(prog, 'callers_of') else []
                    for cf in cs:
                        cf = cf[0] if isinstance(cf, tuple) else cf
                        for m in cf.cfg.nodes:
                            if m.op == 'call' and any(t is f for t in prog.targets(m.b)) and m.loop is not None:
                                g, lid = cf, m.loop
                if lid is None:
                    rep.bad('C12.pool', f.short, n.line, 'loop', 'an executor is created outside the loop over the allowed jobs')
                    continue
                creating.append((lid, g))
                tc = trip_count(g, g.cfg.loops[lid])
                site = g.short + ': number of executors'
                if tc is None:
                    c = g.cfg.loops[lid].cond
                    rep.notes.append('the trip count of the loop creating executors was not understood')
                    rep.ok('C12.pool', site + ' (not understood)')
                    continue
                b, d = tc
                isjobs = any(x.get('k') == 'mem' and x.get('n') == NS + 'GlobalOptions::maxNumberOfJobs' for x in walk(b))
                if not isjobs and b.get('k') == 'var':
                    for m in g.cfg.nodes:
                        if m.op == 'decl' and m.a.get('id') == b.get('id') and m.b is not None:
                            b = m.b
                            isjobs = any(x.get('k') == 'mem' and x.get('n') == NS + 'GlobalOptions::maxNumberOfJobs' for x in walk(b))
                arith = [x for x in walk(b) if x.get('k') == 'bin' or x.get('k') == 'int']
                if not isjobs or arith or d != 0:
                    rep.bad('C12.pool', g.short, n.line, 'count', 'the number of executors is not the number of allowed jobs (off by %s)' % d)
                else:
                    rep.ok('C12.pool', site)
    mon = Pool(prog, rep)
    mon.creating = creating
    run_roots(prog, rep, mon, ['TargetExecutor::TargetExecutor'], events=EV, noinline=NOIN)
    rep.require('C12.pool', 2)
    others = [f for f in prog.methods('TargetExecutor') if not f.ctor and f.short not in SLOTS and
              any(n.op == 'assign' and n.a.get('k') == 'mem' and n.a.get('n') in (NS + AVAIL, NS + PROCS) for n in f.cfg.nodes)]
    for f in others:
        rep.bad('C12.avail', f.short, f.line, 'assigned', 'the available executors are replaced')
    run_roots(prog, rep, Tokens(prog, rep), SLOTS, events=EV, noinline=[x for x in NOIN])
    rep.require('C12.take', 2)
    rep.require('C12.token', 1)
    rep.require('C12.release', 1)
    rep.require('C12.return', 2)
    # buildNextTarget runs when a token was acquired
    b = prog.fns('TargetExecutor::buildNextTarget')
    for kind, sn, sig, slotname, slots, c, f in prog.connections:
        if any(s in b for s in slots):
            ok = kind == 'connect' and sig[2] == NS + 'JobClient::acquired'
            if ok:
                rep.ok('C12.token', f.short + ': connection of the acquired token')
            else:
                rep.bad('C12.token', f.short, c.get('l', 0), 'connection', 'a target is started without a job token')

    class Single(Rule):
        def call(self, eng, st, fr, node, ci):
            if ci.ctor and ci.e.get('cls') == NS + 'TargetExecutor':
                off = None
                for t, vs in st.facts.items():
                    if callname(strip_old(t)) == 'isParallelExecutionDisabled' or is_field(t, 'Makefile::m_parallelExecutionDisabled'):
                        off = st.truth(t)
                if off is None:
                    off = {1: True, 0: False}.get(st.flags.get(('off',)))
                v = st.val(('f', ('g', NS + 'g_options'), NS + 'GlobalOptions::maxNumberOfJobs'))
                for l, x in st.heap.items():
                    if l[0] == 'f' and l[2] == NS + 'GlobalOptions::maxNumberOfJobs':
                        v = st.val(x)
                self.rep.check(off is False or v == 1, 'C12.single', fr, node, 'one executor if parallel execution is disabled',
                               'the executors are created without regard to disabled parallel execution', st)

        def branch(self, eng, st, fr, node, t, truth):
            s = strip_old(t)
            while s[0] == 'op' and s[1] == '!' and len(s) == 3:
                s, truth = s[2], not truth
            if callname(s) == 'isParallelExecutionDisabled' or is_field(s, 'Makefile::m_parallelExecutionDisabled'):
                st.flags[('off',)] = int(truth)
    run_roots(prog, rep, Single(prog, rep), ['main'], events=call_events('MakefileFactory::apply'), noinline=('MakefileFactory::apply', 'TargetExecutor::apply'))
    rep.require('C12.single', 1)
