"""C14-C18, C38: execution of the command lines of a target."""
from .common import *
from .registry import check
from .graph import enum_value
from .executor import (cur, root_frame, field_truth, queued, bool_param, RESULT_EVENTS, OPT_DUMP, OPT_DRY, FINISHED, NOIN,
                       EV as EXEC_EV)

C = 'CommandExecutor::'
IDX = C + 'm_currentCommandIdx'
TARGET = C + 'm_pTarget'
IGNORE = C + 'm_ignoreProcessErrors'
ACTIVE = C + 'm_active'
NEXTDIR = C + 'm_nextWorkingDir'
COMMANDS = 'CommandContainer::m_commands'
MAXEXIT = 'Command::m_maxExitCode'
SILENT = 'Command::m_silent'
OPT_QUIET = 'Options::suppressExecutedCommandsDisplay'
WRITERS = {'writeToStandardOutput', 'writeToChannel', 'writeToStdOutBuffer', 'printf', 'fputs', 'puts', 'fwrite', 'fprintf', 'putchar', 'putc'}

CEV = either(call_events('Process::start', C + 'finished', C + 'executeCurrentCommandLine', C + 'onProcessFinished', C + 'environmentChanged',
                         C + 'setEnvironment', 'Process::setEnvironment', 'Process::setWorkingDirectory', C + 'writeToStandardOutput',
                         'Process::writeToStdOutBuffer', C + 'cleanupTempFiles', C + 'createTempFiles'),
             field_events(IDX, IGNORE, ACTIVE, NEXTDIR, OPT_DRY, OPT_QUIET, SILENT, MAXEXIT))
CNOIN = ('Process::start', C + 'onProcessFinished', C + 'finishExecution', C + 'setEnvironment', 'Process::setEnvironment',
         'Process::setWorkingDirectory', C + 'writeToStandardOutput', C + 'writeToStandardError', 'Process::writeToStdOutBuffer',
         'Process::writeToStdErrBuffer', C + 'createTempFiles', C + 'cleanupTempFiles', 'Process::waitForFinished',
         'DescriptionBlock::expandFileNameMacros', C + 'writeToChannel', 'Process::setBufferedOutput')
EXECUTE = C + 'executeCurrentCommandLine'


# ---------------------------------------------------------------- C14
class Dry(Rule):
    """In a dry run nothing is executed."""

    def branch(self, eng, st, fr, node, t, truth):
        s, v = truths(t, truth)
        if is_field(s, OPT_DRY):
            st.flags.setdefault(('dry',), int(v))

    def need(self, st, fr, node, what):
        self.rep.check(st.flags.get(('dry',)) == 0, 'C14.exec', fr, node, 'not in a dry run: ' + what,
                       '%s, although this may be a dry run' % what, st)

    def call(self, eng, st, fr, node, ci):
        if ci.has('Process::start'):
            self.need(st, fr, node, 'a command is executed')
        elif ci.has(C + 'environmentChanged') or ci.has(C + 'setEnvironment') or ci.has('Process::setEnvironment'):
            self.need(st, fr, node, 'the environment is changed')
        elif ci.has('Process::setWorkingDirectory'):
            self.need(st, fr, node, 'the working directory is changed')
        elif ci.short in WRITERS:
            st.flags[('echo',)] = 1
        elif ci.has(C + 'onProcessFinished') and st.flags.get(('dry',)) == 1:
            self.rep.check(('echo',) in st.flags, 'C14.echo', fr, node, 'the command line is printed in a dry run',
                           'in a dry run a command line is not printed', st)

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, NEXTDIR) and val[0] != 'dflt':
            self.need(st, fr, node, 'the working directory is changed')

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret' and st.flags.get(('dry',)) == 1:
            self.rep.check(('echo',) in st.flags, 'C14.echo', fr, node, 'the command line is printed in a dry run',
                           'in a dry run a command line is not printed', st)


class Dump(Rule):
    """/DUMPGRAPH: nothing is started, and the build ends."""

    def branch(self, eng, st, fr, node, t, truth):
        s, v = truths(t, truth)
        if is_field(s, OPT_DUMP):
            st.flags[('dump',)] = int(v)

    def call(self, eng, st, fr, node, ci):
        if queued(ci, 'startProcesses') or ci.has(C + 'start') or ci.has('TargetExecutor::buildNextTarget'):
            self.rep.check(st.flags.get(('dump',)) == 0, 'C14.dump', fr, node, 'targets are started only without /DUMPGRAPH',
                           'targets are started although only the graph may have been asked for', st)
            st.flags[('go',)] = 1
        elif ci.signal and ci.name == FINISHED:
            st.flags[('fin',)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret' and st.flags.get(('dump',)) == 1:
            self.rep.check(('fin',) in st.flags, 'C14.end', fr, node, 'with /DUMPGRAPH the build ends', 'with /DUMPGRAPH jom does not end', st)


def is_entry(prog, f):
    """Is the function called by the event loop, the system or the outside?"""
    return any(f in slots for kind, sn, sig, slotname, slots, c, caller in prog.connections)


@check('C14')
def c14(prog, rep):
    rep.rule('C14.exec', 'processes are started and environment or directory changed only if this is known not to be a dry run')
    rep.rule('C14.echo', 'in a dry run every command line is printed')
    rep.rule('C14.who', 'processes are started only by the execution of a command line')
    rep.rule('C14.dump', 'with /DUMPGRAPH no target is started')
    rep.rule('C14.end', 'with /DUMPGRAPH the build ends, and this reaches the event loop')
    mon = Dry(prog, rep)
    run_roots(prog, rep, mon, [EXECUTE], events=CEV, noinline=CNOIN, small=0)
    rep.require('C14.exec', 2)
    rep.require('C14.echo', 1)
    ex = set(prog.fns(EXECUTE))
    for f, n, g in reaches(prog, prog.fns('Process::start'), ex):
        if f in ex:
            rep.ok('C14.who', '%s: calls %s' % (f.short, g.short))
        elif is_entry(prog, f) or not any(h is not f for h, m, k in reaches(prog, [f], ex)):
            rep.bad('C14.who', f.short, n.line, 'calls ' + g.short, 'a process is started outside the execution of a command line: nothing prevents it in a dry run', file=f.file)
    rep.require('C14.who', 1)
    run_roots(prog, rep, Dump(prog, rep), ['TargetExecutor::apply'], events=either(EXEC_EV, field_events(OPT_DUMP)), noinline=NOIN)
    rep.require('C14.dump', 1)
    rep.require('C14.end', 1)
    # apply() may announce the end before the event loop runs
    for kind, sn, sig, slotname, slots, c, f in prog.connections:
        if kind == 'connect' and sig[2] == FINISHED and any(g.name == NS + 'Application::exit' for g in slots):
            q = any(x.get('n', '').endswith('QueuedConnection') for x in walk(c) if x.get('k') in ('enum', 'var', 'mem', 'int')) or 'QueuedConnection' in repr(c)
            if q:
                rep.ok('C14.end', f.short + ': connection of the end of the build')
            else:
                rep.bad('C14.end', f.short, c.get('l', 0), 'connection', 'the end of the build is announced directly: if it comes before the event loop runs, jom does not end')


# ---------------------------------------------------------------- C15
class Verdict(Rule):
    """CommandExecutor::onProcessFinished: every result leads to exactly one consequence, the right one."""

    def params(self, fr):
        fn = root_frame(fr).fn
        ints = [('p', fn.key, p['n']) for p in fn.params]
        return ints[0], ints[1] if len(ints) > 1 else None

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.normal = enum_value(self.p, 'NormalExit')

    def relation(self, st, fr, t, truth):
        """What a condition says about idx < count: (offset of idx, True/False)."""
        if t[0] == 'op' and t[1] == '!' and len(t) == 3:
            return self.relation(st, fr, t[2], not truth)
        if t[0] != 'op' or len(t) != 4 or t[1] not in ('<', '=='):
            return None
        i0 = ('f', root_frame(fr).this, NS + IDX)
        a, ka = lin(strip_old(t[2]))
        b, kb = lin(strip_old(t[3]))
        n = lambda x: x[0] == 'size' and mentions_field(x, COMMANDS)
        if a == i0 and n(b):
            # idx + ka < n + kb, or equal
            if t[1] == '<':
                return ka - kb, truth
            return (ka - kb, not truth) if not truth or True else None
        if n(a) and b == i0:
            if t[1] == '<':      # n + ka < idx + kb  <=>  not (idx + kb - ka - 0 <= n) ; idx + (kb-ka) - 1 >= n
                return kb - ka - 1, not truth
            return kb - ka, not truth
        return None

    def branch(self, eng, st, fr, node, t, truth):
        r = self.relation(st, fr, t, truth)
        if r is not None:
            st.flags[('more',)] = (r[0], int(r[1]))
        s = strip_old(t)
        x, v = truths(t, truth)
        ec, es = self.params(fr)
        if x[0] == 'op' and x[1] == '<' and len(x) == 4 and (is_field(x[2], MAXEXIT)) != is_field(x[3], MAXEXIT):
            left = is_field(x[2], MAXEXIT)
            o = strip_old(x[3] if left else x[2])
            st.flags[('judge',)] = int(v) if left else (0 if v else 2)
            norm = st.flags.get(('norm',))
            good = o == ec and (norm == 1 or norm is None and es is None) or o[0] == 'c' and o[1] > 0 and norm == 0
            self.rep.check(good, 'C15.status', fr, node, 'the status of the command is compared',
                           'the result of a command is judged by %s (%s exit)' % (show(o), {1: 'normal', 0: 'abnormal', None: 'any'}[norm]), st)
        if es is not None and any(y == es for y in subterms(s)):
            vs = st.vs(es)
            if vs == (self.normal, self.normal, ()):
                st.flags[('norm',)] = 1
            elif not vs_has(vs, self.normal):
                st.flags[('norm',)] = 0

    def elem(self, eng, st, fr, node, elem):
        e = strip_old(elem)
        if e[0] == 'elem' and mentions_field(e[1], COMMANDS) and len(e) > 2:
            i = e[2]
            ok = is_field(i, IDX) or i == cur(st, fr.this, IDX)
            self.rep.check(ok, 'C15.which', fr, node, 'the current command of the target is used', 'the command at %s is used instead of the current one' % show(i), st)

    def position(self, st, fr):
        b, k = lin(strip_old(cur(st, root_frame(fr).this, IDX)))
        return (k if is_field(b, IDX) else None), b

    def call(self, eng, st, fr, node, ci):
        more = st.flags.get(('more',))
        k, b = self.position(st, fr)
        if ci.has(EXECUTE):
            st.flags[('next',)] = st.flags.get(('next',), 0) + 1
            self.rep.check(k == 1, 'C15.next', fr, node, 'the command after the current one follows',
                           'not the command after the current one is executed next', st)
            self.rep.check(more is not None and more[1] == 1 and k is not None and more[0] >= k, 'C15.next', fr, node, 'there is a further command',
                           'a further command is executed although there may be none', st)
            self.judged(st, fr, node, 0)
        elif ci.signal and ci.name == NS + C + 'finished':
            st.flags[('end',)] = st.flags.get(('end',), 0) + 1
            v = st.truth(ci.args[-1])
            self.rep.check(v is not None, 'C15.verdict', fr, node, 'the outcome is decided', 'a target is reported with an undecided outcome', st)
            if v is False:
                ok = more is not None and more[1] == 0 and more[0] <= 1
                self.rep.check(ok, 'C15.all', fr, node, 'a target is built only after its last command',
                               'a target is reported as built although commands may be left', st)
            if v is not None:
                self.judged(st, fr, node, int(v))

    def judged(self, st, fr, node, want):
        j = st.flags.get(('judge',))
        if want:
            self.rep.check(j == 1, 'C15.status', fr, node, 'only a status above the allowed one is a failure',
                           'a command is taken as failed although its status may be allowed', st)
        else:
            self.rep.check(j == 0, 'C15.status', fr, node, 'a status above the allowed one is a failure',
                           'a command is taken as successful although its status may be above the allowed one', st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        n = st.flags.get(('next',), 0) + st.flags.get(('end',), 0)
        self.rep.check(n == 1, 'C15.once', fr, node, 'a result has one consequence',
                       'the result of a command has %s' % ('no consequence: the target never ends' if n == 0 else 'more than one consequence'), st)


class Begin(Rule):
    """CommandExecutor::start"""

    def call(self, eng, st, fr, node, ci):
        root = root_frame(fr)
        if ci.has(EXECUTE):
            st.flags[('n',)] = st.flags.get(('n',), 0) + 1
            self.rep.check(st.val(cur(st, root.this, IDX)) == 0, 'C15.first', fr, node, 'the first command is executed first',
                           'a target does not begin with its first command', st)
            self.state(eng, st, fr, node)
            self.rep.check(st.val(cur(st, root.this, IGNORE)) == 0, 'C15.ignore', fr, node, 'errors are not ignored at first',
                           'errors of the first command of a target may be ignored', st)
        elif ci.signal and ci.name == NS + C + 'finished':
            st.flags[('n',)] = st.flags.get(('n',), 0) + 1
            v = st.truth(ci.args[-1])
            if v is False:
                self.rep.check(('none',) in st.flags, 'C15.all', fr, node, 'a target without commands is built',
                               'a target is reported as built although it may have commands', st)
            elif ('none',) in st.flags:
                self.rep.check(False, 'C15.empty', fr, node, 'a target without commands does not fail', 'a target without commands may be reported as failed', st)

    def state(self, eng, st, fr, node):
        root = root_frame(fr)
        p = ('p', root.fn.key, root.fn.params[0]['n'])
        self.rep.check(strip_old(cur(st, root.this, TARGET)) == p, 'C15.which', fr, node, 'the given target is the current one',
                       'commands of another target than the given one are executed', st)
        self.rep.check(st.val(cur(st, root.this, ACTIVE)) == 1, 'C15.active', fr, node, 'an executor with a target is active',
                       'an executor that executes a target is not marked as active', st)

    def branch(self, eng, st, fr, node, t, truth):
        for x in subterms(t):
            if x[0] == 'size' and mentions_field(x[1], COMMANDS) and st.val(x) == 0:
                st.flags[('none',)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            n = st.flags.get(('n',), 0)
            self.rep.check(n == 1, 'C15.once', fr, node, 'a started target has one consequence',
                           'starting a target has %s' % ('no consequence' if not n else 'more than one consequence'), st)


class Run(Rule):
    """executeCurrentCommandLine: one result, or a process whose end or error will be reported."""

    def enter(self, eng, st, fr):
        if fr.parent is None:
            st.flags[('ig',)] = 0

    def call(self, eng, st, fr, node, ci):
        root = root_frame(fr)
        if ci.has(C + 'onProcessFinished'):
            n = st.flags.get(('res',), 0) + 1
            st.flags[('res',)] = n
            self.rep.check(('started',) not in st.flags or st.flags.get(('run',)) == 0 and st.flags.get(('ign',)) == 1, 'C15.once', fr, node,
                           'no result is invented for a started process', 'a result is reported for a command although its process may run', st)
        elif ci.signal and ci.name == NS + C + 'finished':
            st.flags[('res',)] = st.flags.get(('res',), 0) + 1
        elif ci.has('Process::start'):
            if ('started',) in st.flags:
                self.rep.check(st.flags.get(('run',)) == 0 and st.flags.get(('ign',)) == 1, 'C15.again', fr, node,
                               'a command is started again only if it could not be started', 'a command may be executed twice', st)
            st.flags[('started',)] = 1
            st.flags.pop(('run',), None)
            # not ignored on entry: start() and every return of this function leave it so
            st.flags[('ign',)] = st.flags.get(('ig',), -1)
            self.rep.check(st.flags.get(('res',), 0) == 0, 'C15.once', fr, node, 'nothing is started after a result', 'a process is started although a result was reported', st)

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, IGNORE):
            st.flags[('ig',)] = {True: 1, False: 0, None: -1}[st.truth(val)]

    def branch(self, eng, st, fr, node, t, truth):
        s, v = truths(t, truth)
        if resname(s) == 'isRunning':
            st.flags[('run',)] = int(v)

    def elem(self, eng, st, fr, node, elem):
        Verdict.elem(self, eng, st, fr, node, elem)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        res = st.flags.get(('res',), 0)
        if ('started',) in st.flags and res == 0:
            ok = st.flags.get(('run',)) == 1 or st.flags.get(('ign',)) == 0
            self.rep.check(ok, 'C15.lost', fr, node, 'a command that could not be started is not lost',
                           'a command that could not be started is neither executed otherwise nor reported: the target never ends', st)
        else:
            self.rep.check(res == 1 if ('started',) not in st.flags else res <= 1, 'C15.once', fr, node, 'a command line has one result',
                           'executing a command line has %s' % ('no result and starts nothing: the target never ends' if res == 0 else '%d results' % res), st)
        self.rep.check(st.flags.get(('ig',), 0) == 0, 'C15.ignore', fr, node, 'errors are not ignored when the command runs',
                       'errors of a running command are ignored: the target would never end', st)


class OnError(Rule):
    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.normal = enum_value(self.p, 'NormalExit')

    def branch(self, eng, st, fr, node, t, truth):
        s, v = truths(t, truth)
        if is_field(s, IGNORE):
            st.flags.setdefault(('ig',), int(v))

    def call(self, eng, st, fr, node, ci):
        if ci.has(C + 'onProcessFinished'):
            st.flags[('n',)] = st.flags.get(('n',), 0) + 1
            vs = st.vs(ci.args[0])
            es = st.vs(ci.args[1])
            self.rep.check(not vs_has(vs, 0) or not vs_has(es, self.normal), 'C15.error', fr, node, 'an error is a failure', 'an error of a process is reported as success', st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            ig = st.flags.get(('ig',))
            n = st.flags.get(('n',), 0)
            if n == 0:
                self.rep.check(ig == 1, 'C15.error', fr, node, 'an error is reported unless ignored', 'an error of a process may be lost: the target never ends', st)
            else:
                self.rep.check(n == 1 and ig == 0, 'C15.error', fr, node, 'an ignored error is not reported, others once',
                               'an ignored error is reported as a result' if n == 1 else 'an error is reported %d times' % n, st)


class Finish(Rule):
    def call(self, eng, st, fr, node, ci):
        if ci.signal and ci.name == NS + C + 'finished':
            root = root_frame(fr)
            st.flags[('n',)] = st.flags.get(('n',), 0) + 1
            self.rep.check(ci.args[0] == root.this, 'C15.verdict', fr, node, 'the executor announces itself', 'the end of another executor is announced', st)
            self.rep.check(st.val(cur(st, root.this, ACTIVE)) == 0, 'C15.active', fr, node, 'a finished executor is not active',
                           'an executor is still marked as active when its end is announced', st)
            p = bool_param(root.fn)
            if p is not None:
                self.rep.check(strip_old(ci.args[1]) == p, 'C15.verdict', fr, node, 'the outcome is passed on', 'the announced outcome is %s, not the given one' % show(ci.args[1]), st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            self.rep.check(st.flags.get(('n',), 0) == 1, 'C15.once', fr, node, 'the end is announced once', 'the end of a target is not announced once', st)


PS = 'Process::m_state'
PCODE = 'ProcessPrivate::exitCode'
STILL = 259


class ProcEnd(Rule):
    """Process::onProcessFinished announces the end of a running process once, with its exit code."""

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.running = enum_value(self.p, 'Running')
            self.idle = enum_value(self.p, 'NotRunning')
            self.normal = enum_value(self.p, 'NormalExit')

    def branch(self, eng, st, fr, node, t, truth):
        for x in subterms(t):
            if is_field(x, PS) and x[0] == 'f':
                vs = st.vs(x)
                if vs == (self.running, self.running, ()):
                    st.flags[('was',)] = 1
                elif not vs_has(vs, self.running):
                    st.flags[('was',)] = 0

    def call(self, eng, st, fr, node, ci):
        root = root_frame(fr)
        if ci.signal and ci.name == NS + 'Process::finished':
            st.flags[('n',)] = st.flags.get(('n',), 0) + 1
            self.rep.check(st.flags.get(('was',)) == 1, 'C15.proc', fr, node, 'only a running process ends', 'the end of a process that does not run may be announced', st)
            self.rep.check(st.val(cur(st, root.this, PS)) == self.idle, 'C15.proc', fr, node, 'the process is idle when its end is announced',
                           'a process is not marked as ended when its end is announced: the next command could not be started', st)
            a = strip_old(ci.args[0])
            self.rep.check(is_field(a, PCODE), 'C15.code', fr, node, 'the exit code of the process is announced', 'the announced status is %s, not the exit code of the process' % show(a), st)
            loc = [v for l, v in st.heap.items() if is_field(l, PCODE)]
            self.rep.check(any(st.val(v) == STILL for v in loc), 'C15.reset', fr, node, 'the exit code is reset before the next command can start',
                           'the exit code is not reset when the end of a process is announced: the next command would end at once with it', st)
            if st.vs(ci.args[1]) == (self.normal, self.normal, ()):
                vs = st.vs(ci.args[0])
                self.rep.check(vs[0] is not None and vs[0] >= 0, 'C15.crash', fr, node, 'a crash is not a normal exit', 'a process with a negative status is reported as normal exit', st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            n = st.flags.get(('n',), 0)
            self.rep.check(n == (0 if st.flags.get(('was',)) == 0 else 1), 'C15.proc', fr, node, 'the end of a process is announced once',
                           'the end of a process is announced %d times' % n, st)


class Retrieve(Rule):
    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.running = enum_value(self.p, 'Running')

    def state(self, st, fr):
        return st.vs(cur(st, root_frame(fr).this, PS))

    def known(self, st):
        v = [v for l, v in st.heap.items() if is_field(l, PCODE)]
        v += [t for t in st.facts if t[0] == 'f' and is_field(t, PCODE)]
        return any(not vs_has(st.vs(x), STILL) for x in v)

    def call(self, eng, st, fr, node, ci):
        if ci.has('Process::onProcessFinished'):
            st.flags[('n',)] = 1
            self.rep.check(self.known(st), 'C15.exited', fr, node, 'a process ends only with an exit code', 'a process is treated as ended although it may still be active', st)
        elif ci.short in ('singleShot', 'invokeMethod') and 'tryToRetrieveExitCode' in repr(ci.args):
            st.flags[('n',)] = 1
            self.rep.check(self.state(st, fr) == (self.running, self.running, ()), 'C15.poll', fr, node, 'asked again only while a process is running',
                           'the exit code is asked for again although no process may be running: this never ends, and can end a later process early', st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            self.rep.check(('n',) in st.flags or not vs_has(self.state(st, fr), self.running), 'C15.exited', fr, node, 'the exit code is asked for again', 'the end of a process can be missed', st)


class ProcStart(Rule):
    """Process::start: the process runs, or an error is announced."""

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.running = enum_value(self.p, 'Running')
            self.idle = enum_value(self.p, 'NotRunning')

    def call(self, eng, st, fr, node, ci):
        root = root_frame(fr)
        if ci.signal and ci.name == NS + 'Process::error':
            st.flags[('err',)] = st.flags.get(('err',), 0) + 1
            self.rep.check(st.val(cur(st, root.this, PS)) == self.idle, 'C15.start', fr, node, 'a process that could not be started is idle',
                           'a process that could not be started is not marked as ended when the error is announced', st)
        elif ci.short in ('CreateProcess', 'CreateProcessW', 'CreateProcessA'):
            st.flags[('cp',)] = 1
        elif ci.short == 'setHandle' and 'deathNotifier' in show(ci.recv):
            st.flags[('note',)] = 1
        elif ci.short == 'setEnabled' and 'deathNotifier' in show(ci.recv) and st.truth(ci.args[0]) is True:
            st.flags[('on',)] = 1

    def branch(self, eng, st, fr, node, t, truth):
        s, v = truths(t, truth)
        if s[0] in ('r', 'm') and 'CreateProcess' in repr(s):
            st.flags[('created',)] = int(v)

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, 'ProcessPrivate::hProcess'):
            st.flags[('h',)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        err = st.flags.get(('err',), 0)
        v = st.val(cur(st, fr.this, PS))
        if err == 0:
            ok = v == self.running and st.flags.get(('created',)) == 1
            self.rep.check(ok, 'C15.start', fr, node, 'a process runs or an error is announced', 'a process is %s although no error was announced' %
                           ('marked as running without having been created' if v == self.running else 'not running'), st)
            self.rep.check(all((k,) in st.flags for k in ('note', 'on', 'h')), 'C15.watch', fr, node, 'the end of a running process is watched',
                           'the end of a running process is not watched', st)
        else:
            self.rep.check(err == 1, 'C15.start', fr, node, 'an error is announced once', 'an error is announced %d times' % err, st)


class Notified(Rule):
    """The reader thread: either the next read is started or the exit code is asked for."""

    def after(self, eng, st, fr, node, ci, res):
        if ci.short == 'startRead':
            st.flags[('rd',)] = res

    def branch(self, eng, st, fr, node, t, truth):
        r = st.flags.get(('rd',))
        s, v = truths(t, truth)
        if r is not None and s == strip_old(r):
            st.flags[('go',)] = int(v)

    def call(self, eng, st, fr, node, ci):
        if ci.short in ('invokeMethod', 'singleShot') and 'tryToRetrieveExitCode' in repr(ci.args):
            st.flags[('ask',)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            self.rep.check(('ask',) in st.flags or st.flags.get(('go',)) == 1, 'C15.watch', fr, node, 'reading goes on or the exit code is asked for',
                           'the output of a process is not read any further and its end can be missed', st)


def connected(prog, rep, rule, sig, slot, what, n=1):
    hit = 0
    for kind, sn, s, slotname, slots, c, f in prog.connections:
        if kind == 'connect' and (s[2] == NS + sig or s[2] == sig or s[2] is None and sn == sig.split('::')[-1]) and any(g.name == NS + slot for g in slots):
            hit += 1
            rep.ok(rule, '%s: %s is connected' % (f.short, sig))
    if hit < n:
        rep.bad(rule, sig, 0, 'connection to ' + slot, what)
    return hit


@check('C15')
def c15(prog, rep):
    rep.rule('C15.once', 'starting a target, executing a command line and a result have exactly one consequence each')
    rep.rule('C15.which', 'it is the current command of the current target that is executed and judged')
    rep.rule('C15.empty', 'a target without commands does not fail')
    rep.rule('C15.first', 'a target begins with its first command')
    rep.rule('C15.next', 'a command follows the one before, if there is one')
    rep.rule('C15.all', 'a target is built when its last command succeeded')
    rep.rule('C15.verdict', 'the decided outcome of the target is announced, by its executor')
    rep.rule('C15.status', 'a command is judged by its exit status, an abnormal end being a failure')
    rep.rule('C15.signed', 'the largest allowed status is compared unsigned')
    rep.rule('C15.again', 'a command line is executed a second time only if the first process is known not to have started')
    rep.rule('C15.lost', 'a command that could not be started is executed otherwise or reported')
    rep.rule('C15.ignore', 'errors are ignored only during the first attempt')
    rep.rule('C15.error', 'an error that is not ignored is a failure of the command')
    rep.rule('C15.active', 'an executor is active from the start of its target to the announcement of its end')
    rep.rule('C15.proc', 'the end of a running process is announced once, and the process is idle then')
    rep.rule('C15.code', 'with the exit code of the process')
    rep.rule('C15.reset', 'the exit code is reset before the next command can start')
    rep.rule('C15.crash', 'a negative status is not a normal exit')
    rep.rule('C15.poll', 'the exit code of a process is asked for only while it is running')
    rep.rule('C15.exited', 'a process is ended only when it has an exit code, and otherwise asked again')
    rep.rule('C15.start', 'a process runs after its start, or one error is announced')
    rep.rule('C15.watch', 'the end of a running process is watched')
    rep.rule('C15.connect', 'end and errors of a process reach its executor, the end of a target the build')
    run_roots(prog, rep, Verdict(prog, rep), [C + 'onProcessFinished'], events=RESULT_EVENTS, noinline=(EXECUTE,), steps=True)
    rep.require('C15.next', 2)
    rep.require('C15.all', 1)
    rep.require('C15.status', 1)
    run_roots(prog, rep, Begin(prog, rep), [C + 'start'], events=CEV, noinline=tuple(x for x in CNOIN if x != C + 'finishExecution') + (EXECUTE,))
    rep.require('C15.first', 1)
    run_roots(prog, rep, Run(prog, rep), [EXECUTE], events=CEV, noinline=CNOIN, small=0,
              keepfacts=lambda t: 'isRunning' in repr(t))
    rep.require('C15.again', 1)
    rep.require('C15.lost', 1)
    run_roots(prog, rep, OnError(prog, rep), [C + 'onProcessError'], events=CEV, noinline=CNOIN)
    rep.require('C15.error', 2)
    fins = [f for f in prog.methods('CommandExecutor') if any(n.op == 'call' and n.b.get('f') == NS + C + 'finished' for n in f.cfg.nodes)]
    run_roots(prog, rep, Finish(prog, rep), [f for f in fins if f.short == C + 'finishExecution' or len(fins) == 1 and bool_param(f)])
    # unsigned comparison
    isem = lambda z: z.get('k') == 'mem' and z.get('n') == NS + MAXEXIT
    for f in prog.funcs.values():
        for n in f.cfg.nodes:
            for e in (n.a, n.b):
                for x in walk(e):
                    if x.get('k') == 'bin' and x.get('op') in CMPS and (any(isem(z) for z in walk(x['a'])) or any(isem(z) for z in walk(x['b']))):
                        if x.get('at') != 'u':
                            rep.bad('C15.signed', f.short, n.line, 'comparison', 'the largest allowed status is compared as signed number: "ignore all" becomes "allow none"', file=f.file)
                        else:
                            rep.ok('C15.signed', f.short + ': comparison')
                    elif x.get('k') == 'cast' and isem(x.get('e') or {}) and (x.get('sg') or x.get('nw') or x.get('t') == 'i'):
                        rep.bad('C15.signed', f.short, n.line, 'conversion', 'the largest allowed status is converted to a signed number: "ignore all" becomes "allow none"', file=f.file)
    run_roots(prog, rep, ProcEnd(prog, rep), ['Process::onProcessFinished'], events=either(field_events(PS, PCODE), call_events('Process::finished')),
              noinline=('Process::printBufferedOutput',))
    rep.require('C15.proc', 3)
    rep.require('C15.reset', 1)
    rep.require('C15.crash', 1)
    run_roots(prog, rep, Retrieve(prog, rep), ['Process::tryToRetrieveExitCode'], events=field_events(PCODE, PS), noinline=('Process::onProcessFinished',))
    rep.require('C15.exited', 2)
    run_roots(prog, rep, ProcStart(prog, rep), ['Process::start'], events=either(field_events(PS, 'ProcessPrivate::deathNotifier', 'ProcessPrivate::hProcess'), call_events('Process::error')),
              noinline=('setupPipe', 'ProcessPrivate::startRead', 'IoCompletionPort::registerObserver', 'safelyCloseHandle'), keepfacts=lambda t: 'CreateProcess' in repr(t))
    rep.require('C15.start', 2)
    rep.require('C15.watch', 1)
    run_roots(prog, rep, Notified(prog, rep), ['OutputChannel::completionPortNotified'], noinline=('OutputChannel::startRead', 'fwrite_binary'))
    rep.require('C15.watch', 2)
    connected(prog, rep, 'C15.connect', 'Process::finished', C + 'onProcessFinished', 'the end of a process does not reach its executor')
    connected(prog, rep, 'C15.connect', 'Process::error', C + 'onProcessError', 'errors of a process do not reach its executor')
    connected(prog, rep, 'C15.connect', C + 'finished', 'TargetExecutor::onChildFinished', 'the end of a target does not reach the build')
    connected(prog, rep, 'C15.connect', 'QWinEventNotifier::activated', 'Process::tryToRetrieveExitCode', 'the end of a process is not noticed')


# ---------------------------------------------------------------- C16
class Echo(Rule):
    """A command line is printed iff this is a dry run, or it is not silent and printing is not suppressed."""

    def branch(self, eng, st, fr, node, t, truth):
        s, v = truths(t, truth)
        for n, f in (('dry', OPT_DRY), ('sil', SILENT), ('sup', OPT_QUIET)):
            if is_field(s, f):
                st.flags.setdefault((n,), int(v))

    def text(self, st, t):
        """Is t made from the command line?"""
        return any(is_field(x, 'Command::m_commandLine') for x in subterms(strip_old(t))) or strip_old(t) in [k[1] for k in st.flags if k[0] == 'txt']

    def write(self, eng, st, fr, node, loc, val, op):
        if any(is_field(x, 'Command::m_commandLine') for x in subterms(strip_old(val))) and loc[0] == 'loc':
            st.flags[('txt', show(loc))] = 1

    def call(self, eng, st, fr, node, ci):
        if ci.short in WRITERS and fr.parent is None or ci.short in WRITERS and ci.short not in ('writeToChannel', 'writeToStdOutBuffer'):
            n = st.flags.get(('e',), 0) + 1
            st.flags[('e',)] = n
            self.rep.check(n == 1, 'C16.once', fr, node, 'a command line is printed once', 'a command line is printed more than once', st)
            a = [show(strip_old(x)) for x in ci.args]
            ok = any(is_field(y, 'Command::m_commandLine') for x in ci.args for y in subterms(strip_old(x))) or any(('txt', x) in st.flags for x in a)
            self.rep.check(ok, 'C16.text', fr, node, 'the command line is printed', '%s is printed instead of the command line' % ', '.join(a), st)
            d, l, p = self.get(st)
            self.rep.check(d == 1 or l == 0 and p == 0, 'C16.silent', fr, node, 'silent command lines are not printed',
                           'a command line is printed although it may be silent', st)
            self.rep.check(('ran',) not in st.flags, 'C16.before', fr, node, 'printed before it is executed', 'a command line is printed after it was executed', st)
        elif ci.has('Process::start') or ci.has(C + 'exec_cd') or ci.has(C + 'environmentChanged') or ci.has(C + 'onProcessFinished'):
            if ('ran',) not in st.flags:
                self.shown(st, fr, node)
            st.flags[('ran',)] = 1

    def get(self, st):
        return st.flags.get(('dry',)), st.flags.get(('sil',)), st.flags.get(('sup',))

    def shown(self, st, fr, node):
        d, l, p = self.get(st)
        if ('e',) not in st.flags:
            self.rep.check(d == 0 and (l == 1 or p == 1), 'C16.echo', fr, node, 'other command lines are printed',
                           'a command line is executed without being printed although it may not be silent', st)


@check('C16')
def c16(prog, rep):
    rep.rule('C16.echo', 'a command line that is neither silent nor suppressed is printed before it is executed, and always in a dry run')
    rep.rule('C16.silent', 'a silent or suppressed command line is not printed, except in a dry run')
    rep.rule('C16.text', 'what is printed is the command line')
    rep.rule('C16.once', 'it is printed once')
    rep.rule('C16.before', 'it is printed before it is executed')
    rep.rule('C16.channel', 'the text goes to standard output, through the buffer of the process if its output is buffered')
    run_roots(prog, rep, Echo(prog, rep), [EXECUTE], events=CEV, noinline=CNOIN + (C + 'exec_cd', C + 'isSimpleCommandLine'), small=0)
    rep.require('C16.echo', 1)
    rep.require('C16.silent', 1)
    rep.require('C16.text', 1)

    class Channel(Rule):
        """writeToStandardOutput / writeToStandardError: direct or buffered, never both or none, and the right stream."""

        def branch(self, eng, st, fr, node, t, truth):
            s, v = truths(t, truth)
            if resname(s) == 'isBufferedOutputSet' or is_field(s, 'Process::m_bufferedOutput'):
                st.flags[('buf',)] = int(v)

        def call(self, eng, st, fr, node, ci):
            root = root_frame(fr).fn
            err = root.short.endswith('Error')
            if ci.has('Process::writeToStdOutBuffer') or ci.has('Process::writeToStdErrBuffer'):
                st.flags[('n',)] = st.flags.get(('n',), 0) + 1
                self.rep.check(st.flags.get(('buf',)) == 1, 'C16.channel', fr, node, 'buffered if the process is', 'text is buffered although the output of the process is direct', st)
                self.rep.check(ci.has('Process::writeToStdErrBuffer') == err, 'C16.channel', fr, node, 'the right buffer', 'text goes to the wrong stream', st)
                self.rep.check(strip_old(ci.args[0]) == ('p', root.key, root.params[0]['n']), 'C16.channel', fr, node, 'the text is kept', 'another text is written', st)
            elif ci.short in ('writeToChannel', 'fputs', 'fwrite', 'fprintf') and ('d',) not in st.flags:
                st.flags[('d',)] = 1
                st.flags[('n',)] = st.flags.get(('n',), 0) + 1
                self.rep.check(st.flags.get(('buf',)) == 0, 'C16.channel', fr, node, 'direct if the process is', 'text is written directly although the output of the process is buffered: outputs are interleaved', st)
                s = show(ci.args[-1])
                self.rep.check('stderr' in s if err else 'stdout' in s, 'C16.channel', fr, node, 'the right stream', 'text goes to the wrong stream (%s)' % s, st)

        def exit(self, eng, st, fr, node, kind, val):
            if fr.parent is None and kind == 'ret':
                self.rep.check(st.flags.get(('n',), 0) == 1, 'C16.channel', fr, node, 'the text is written once', 'a text is written %d times' % st.flags.get(('n',), 0), st)
    run_roots(prog, rep, Channel(prog, rep), [C + 'writeToStandardOutput', C + 'writeToStandardError'],
              noinline=('Process::writeToStdOutBuffer', 'Process::writeToStdErrBuffer', C + 'writeToChannel'))
    rep.require('C16.channel', 6)


# ---------------------------------------------------------------- C17
TEMP = C + 'm_tempFiles'
KEEP = C + 'TempFile::keep'
TFILE = C + 'TempFile::file'
INLINES = 'Command::m_inlineFiles'


def mentions_str(t, s):
    return any(x == ('s', s) for x in subterms(strip_old(t)))


class TempStart(Rule):
    """CommandExecutor::start: old temporary files are removed, the new ones exist before the first command."""

    def call(self, eng, st, fr, node, ci):
        if ci.has(C + 'cleanupTempFiles'):
            self.rep.check(('made',) not in st.flags, 'C17.order', fr, node, 'files are removed before new ones are made', 'the temporary files are removed before the commands are executed', st)
            st.flags[('clean',)] = 1
        elif ci.has(C + 'createTempFiles'):
            self.rep.check(('exp',) in st.flags, 'C17.expand', fr, node, 'file name macros are expanded first', 'inline files are written before the file name macros are expanded', st)
            st.flags[('made',)] = 1
        elif ci.has('DescriptionBlock::expandFileNameMacros'):
            st.flags[('exp',)] = 1
        elif ci.has(EXECUTE):
            self.rep.check(('made',) in st.flags, 'C17.order', fr, node, 'the inline files exist before the first command', 'commands are executed before the inline files are written', st)


class TempMake(Rule):
    """createTempFiles: every inline file of every command is written, closed and remembered with its mode."""

    def elem(self, eng, st, fr, node, elem):
        e = strip_old(elem)
        if e[0] != 'elem':
            return
        of = origin_field(e)
        which = 'inl' if is_field(e[1], INLINES) else 'cmd' if is_field(e[1], COMMANDS) else None
        if which is None:
            return
        f, lid = loopctx(fr, node)
        if f is None:
            return
        ok, why = loop_complete(f.fn.cfg.loops[lid])
        self.rep.check(ok, 'C17.every', f, node, 'loop over %s' % ('the inline files' if which == 'inl' else 'the commands'),
                       'not every inline file is written: %s' % why, st)
        if which == 'inl' and ('cur',) not in st.flags:
            st.flags[('cur',)] = elem
            st.flags[('lid',)] = (f.id, lid)

    def reset(self, st):
        for k in ('cur', 'lid', 'open', 'wr', 'cl', 'app', 'keep', 'fn', 'chk', 'repl', 'idx'):
            st.flags.pop((k,), None)

    def current(self, st):
        e = st.flags.get(('cur',))
        return strip_old(e) if e is not None else None

    def call(self, eng, st, fr, node, ci):
        e = self.current(st)
        if ci.short == 'open' and 'QFile' in ci.name or ci.short == 'open' and 'QIODevice' in ci.name:
            st.flags[('op',)] = 1
        elif ci.short == 'write' and ('QIODevice' in ci.name or 'QFile' in ci.name):
            self.rep.check(st.flags.get(('open',)) == 1, 'C17.open', fr, node, 'written only if it could be opened', 'an inline file is written although it may not be open', st)
            src = any(is_field(x, 'InlineFile::m_content') for a in ci.args for x in subterms(strip_old(a)))
            self.rep.check(src, 'C17.content', fr, node, 'the text of the inline file is written', '%s is written instead of the text of the inline file' % show(ci.args[0]), st)
            st.flags[('wr',)] = 1
        elif ci.short == 'close' and ('QFile' in ci.name or 'QIODevice' in ci.name):
            st.flags[('cl',)] = 1
        elif ci.recv is not None and is_container(ci, TEMP) and not ci.e.get('const'):
            if ci.short in GROW:
                st.flags[('app',)] = st.flags.get(('app',), 0) + 1
        elif ci.short == 'replace' and ci.rloc is not None and is_field(ci.rloc, 'Command::m_commandLine'):
            st.flags[('repl',)] = 1
            at = len(ci.args) == 3 and mentions_str(ci.args[0], '<<')
            self.rep.check(at and st.val(ci.args[1]) == 2, 'C17.name', fr, node, 'the name replaces the first <<',
                           'not just the first << of the command line is replaced by the name of the file', st)

    def after(self, eng, st, fr, node, ci, res):
        if st.flags.pop(('op',), None):
            st.flags[('or',)] = res

    def branch(self, eng, st, fr, node, t, truth):
        r = st.flags.get(('or',))
        s, v = truths(t, truth)
        if r is not None and s == strip_old(r) or resname(s) in ('open', 'isOpen'):
            st.flags[('open',)] = int(v)
            st.flags.pop(('or',), None)
        if resname(s) == 'exists':
            st.flags[('chk',)] = int(v)
        for x in subterms(s):
            if x[0] == 'size' and is_field(x[1], 'InlineFile::m_filename'):
                vs = st.vs(t if False else x)
                for y in subterms(t):
                    if y[0] == 'size' and is_field(y[1], 'InlineFile::m_filename'):
                        vs = st.vs(y)
                st.flags[('fn',)] = 0 if vs == FALSE else 1
        if resname(s) == 'indexOf' or any(callname(x) == 'indexOf' and any(y == ('s', '<<') for y in subterms(x)) for x in subterms(s)):
            for y in subterms(t):
                if callname(strip_old(y)) == 'indexOf' and any(z == ('s', '<<') for z in subterms(y)):
                    vs = st.vs(y)
                    st.flags[('idx',)] = 1 if vs[0] is not None and vs[0] >= 0 else 0

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, KEEP):
            e = self.current(st)
            ok = e is not None and strip_old(val) == ('f', e, NS + 'InlineFile::m_keep')
            self.rep.check(ok, 'C17.keep', fr, node, 'the mode of the inline file is kept', 'whether an inline file is kept is taken from %s' % show(val), st)
            st.flags[('keep',)] = 1

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'back' and st.flags.get(('lid',)) == (fr.id, lid):
            for k, m in (('wr', 'written'), ('cl', 'closed'), ('app', 'remembered'), ('keep', 'given its mode')):
                self.rep.check((k,) in st.flags, 'C17.every', fr, node, 'every inline file is ' + m,
                               'an inline file is not %s%s' % (m, ': it is never deleted' if k == 'app' else ''), st)
            self.rep.check(st.flags.get(('fn',)) != 0 or st.flags.get(('chk',)) == 0, 'C17.unique', fr, node, 'a generated name is new',
                           'a generated file name may be that of an existing file', st)
            self.rep.check(('repl',) in st.flags or st.flags.get(('idx',)) == 0, 'C17.name', fr, node, 'the command line gets the name of the file',
                           'the command line does not get the name of the inline file', st)
            self.reset(st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            self.rep.check(('cur',) not in st.flags, 'C17.every', fr, node, 'no inline file is left out', 'the inline files are not all written', st)


class TempClean(Rule):
    """cleanupTempFiles: everything that is not to be kept is removed."""

    def branch(self, eng, st, fr, node, t, truth):
        s, v = truths(t, truth)
        if is_field(s, KEEP):
            st.flags[('keep',)] = int(v)
        for x in subterms(t):
            if x[0] == 'size' and (is_field(x[1], TEMP)):
                st.flags[('empty',)] = 1 if st.val(x) == 0 else 0

    def call(self, eng, st, fr, node, ci):
        if ci.short == 'remove' and 'QFile' in ci.name:
            self.rep.check(st.flags.get(('keep',)) == 0, 'C17.keep', fr, node, 'kept files are not removed', 'a file that is to be kept is removed', st)
            st.flags[('rm',)] = 1
        elif ci.recv is not None and is_container(ci, TEMP) and ci.short in SHRINK:
            st.flags[('took',)] = 1
            if ci.short == 'clear':
                st.flags[('empty',)] = 1

    def elem(self, eng, st, fr, node, elem):
        e = strip_old(elem)
        if e[0] == 'elem' and is_field(e[1], TEMP):
            f, lid = loopctx(fr, node)
            if f is not None:
                ok, why = loop_complete(f.fn.cfg.loops[lid])
                if f.fn.cfg.loops[lid].kind != 'while':
                    self.rep.check(ok, 'C17.clean', f, node, 'loop over the files', 'not every temporary file is removed: %s' % why, st)
                st.flags[('took',)] = 1

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'back' and st.flags.pop(('took',), None):
            k = st.flags.pop(('keep',), None)
            rm = st.flags.pop(('rm',), None)
            self.rep.check(k == 1 or rm, 'C17.clean', fr, node, 'a file that is not kept is removed', 'a temporary file is not removed', st)
            st.flags[('done',)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            self.rep.check(st.flags.get(('empty',)) == 1, 'C17.clean', fr, node, 'no file is left', 'temporary files are left', st)


class AllTemp(EachRule):
    """TargetExecutor::removeTempFiles cleans up every executor."""
    EACH = 'C17.ctrlc'
    PER_ELEM = ('c', 'not')

    def each_want(self, elem):
        return callname(elem[1]) == 'children' or is_field(elem[1], 'TargetExecutor::m_processes') or 'children' in show(elem[1])

    def each_name(self, elem):
        return 'the executors'

    def call(self, eng, st, fr, node, ci):
        if ci.has(C + 'cleanupTempFiles'):
            st.flags[('c',)] = 1

    def branch(self, eng, st, fr, node, t, truth):
        for e in self.each_current(st):
            s, v = truths(t, truth)
            if contains(s, e) and v is False:
                st.flags[('not',)] = 1

    def each_done(self, eng, st, fr, node, elem):
        self.rep.check(('c',) in st.flags or ('not',) in st.flags, self.EACH, fr, node, 'the files of every executor are removed',
                       'the temporary files of an executor are not removed', st)


@check('C17')
def c17(prog, rep):
    rep.rule('C17.order', 'the inline files are written after the former ones are removed and before the first command of the target')
    rep.rule('C17.expand', 'file name macros are expanded before')
    rep.rule('C17.every', 'every inline file is written, closed and remembered')
    rep.rule('C17.content', 'with its text')
    rep.rule('C17.open', 'if it could be opened')
    rep.rule('C17.keep', 'its mode decides whether it is removed')
    rep.rule('C17.unique', 'a generated name is not that of an existing file')
    rep.rule('C17.name', 'the command line gets the name')
    rep.rule('C17.clean', 'cleaning up removes all files that are not to be kept')
    rep.rule('C17.forget', 'files are forgotten only by cleaning up')
    rep.rule('C17.end', 'executors clean up when they are destroyed')
    rep.rule('C17.ctrlc', 'on Ctrl-C the files of all executors are removed before the program ends')
    run_roots(prog, rep, TempStart(prog, rep), [C + 'start'], events=CEV, noinline=CNOIN + (EXECUTE,))
    rep.require('C17.order', 1)
    run_roots(prog, rep, TempMake(prog, rep), [C + 'createTempFiles'], events=field_events(TEMP, KEEP, TFILE, INLINES, 'InlineFile::m_content', 'InlineFile::m_keep'),
              noinline=(C + 'writeToStandardOutput', 'fileNameFromFilePath'), keepfacts=lambda t: 'm_filename' in repr(t), small=6)
    rep.require('C17.every', 6)
    rep.require('C17.unique', 1)
    run_roots(prog, rep, TempClean(prog, rep), [C + 'cleanupTempFiles'], events=field_events(TEMP, KEEP, TFILE))
    rep.require('C17.clean', 2)
    # files are forgotten only where they are removed
    clean = prog.closure([f for f in prog.fns(C + 'cleanupTempFiles')])
    for f in prog.funcs.values():
        for n in f.cfg.nodes:
            e = n.b if n.op == 'call' else None
            o = (e or {}).get('o') or {}
            w = e is not None and o.get('k') == 'mem' and o.get('n') == NS + TEMP and (e.get('f', '').split('::')[-1] in SHRINK or e.get('op') == '=')
            if w:
                if f in clean:
                    rep.ok('C17.forget', f.short + ': ' + e['f'])
                else:
                    rep.bad('C17.forget', f.short, n.line, e['f'], 'temporary files are forgotten without being removed', file=f.file)

    class Dtor(Rule):
        def call(self, eng, st, fr, node, ci):
            if ci.has(C + 'cleanupTempFiles'):
                st.flags[('c',)] = 1

        def exit(self, eng, st, fr, node, kind, val):
            if fr.parent is None and kind == 'ret':
                self.rep.check(('c',) in st.flags, 'C17.end', fr, node, 'temporary files are removed at the end', 'the temporary files of the last target are never removed', st)
    run_roots(prog, rep, Dtor(prog, rep), [C + '~CommandExecutor'], events=call_events(C + 'cleanupTempFiles'), noinline=(C + 'cleanupTempFiles',))
    rep.require('C17.end', 1)
    run_roots(prog, rep, AllTemp(prog, rep), ['TargetExecutor::removeTempFiles'], events=call_events(C + 'cleanupTempFiles'), noinline=(C + 'cleanupTempFiles',))
    rep.require('C17.ctrlc', 2)

    class CtrlC(Rule):
        def branch(self, eng, st, fr, node, t, truth):
            s, v = truths(t, truth)
            if s[0] == 'g' and s[1].endswith('g_pTargetExecutor'):
                st.flags[('x',)] = int(v)

        def call(self, eng, st, fr, node, ci):
            if ci.has('TargetExecutor::removeTempFiles'):
                st.flags[('rm',)] = 1
            elif ci.short in ('exit', '_exit', 'ExitProcess', 'abort', 'terminate', 'TerminateProcess', 'quick_exit'):
                self.done(st, fr, node)

        def done(self, st, fr, node):
            self.rep.check(('rm',) in st.flags or st.flags.get(('x',)) == 0, 'C17.ctrlc', fr, node, 'the program ends after the files are removed',
                           'on Ctrl-C the program ends without removing temporary files', st)

        def exit(self, eng, st, fr, node, kind, val):
            if fr.parent is None and kind == 'ret':
                self.done(st, fr, node)
    h = [f for f in prog.funcs.values() if any(n.op == 'call' and n.b.get('f') == NS + 'TargetExecutor::removeTempFiles' for n in f.cfg.nodes)]
    if not h:
        rep.bad('C17.ctrlc', 'main', 0, 'handler', 'on Ctrl-C the temporary files are not removed')
    run_roots(prog, rep, CtrlC(prog, rep), h, events=call_events('TargetExecutor::removeTempFiles'), noinline=('TargetExecutor::removeTempFiles',))
    reg = False
    for f in prog.funcs.values():
        for c in prog.call_exprs(f):
            if c.get('f', '').endswith('SetConsoleCtrlHandler') and any(x.get('k') in ('fref', 'fn', 'var') and any(x.get('f', x.get('n')) == g.name for g in h) for x in walk(c)):
                reg = True
    if reg:
        rep.ok('C17.ctrlc', 'main: the handler is installed')
    else:
        rep.bad('C17.ctrlc', 'main', 0, 'installed', 'the handler that removes the temporary files on Ctrl-C is not installed')

    class Known(Rule):
        """The executor is known to the handler while it may have files."""

        def write(self, eng, st, fr, node, loc, val, op):
            if loc[0] == 'g' and loc[1].endswith('g_pTargetExecutor'):
                st.flags[('set',)] = {True: 1, False: 0, None: 0}[st.truth(val)]

        def call(self, eng, st, fr, node, ci):
            if ci.has('TargetExecutor::apply') or ci.short == 'exec' and 'Application' in (ci.e.get('cls') or ci.name):
                self.rep.check(st.flags.get(('set',)) == 1, 'C17.ctrlc', fr, node, 'the executor is known to the handler: ' + ci.short,
                               'the build runs while Ctrl-C would not remove its temporary files', st)
    run_roots(prog, rep, Known(prog, rep), ['main'], events=call_events('TargetExecutor::apply'), noinline=('MakefileFactory::apply', 'TargetExecutor::apply'))


# ---------------------------------------------------------------- C18
ENVSIG = C + 'environmentChanged'


class SetCd(Rule):
    """executeCurrentCommandLine: the builtins set and cd."""

    def enter(self, eng, st, fr):
        pass

    def branch(self, eng, st, fr, node, t, truth):
        s, v = truths(t, truth)
        if s[0] == 'm' and any(x == ('s', 'set') for x in subterms(s)):
            st.flags[('set',)] = int(v)
        if s[0] == 'm' and any(x == ('s', 'cd') for x in subterms(s)):
            st.flags[('cd',)] = int(v)
        for x in subterms(t):
            if resname(x) == 'indexOf' and any(y == ('c', 61) for y in subterms(strip_old(x))):
                vs = st.vs(x)
                if vs[0] is not None and vs[0] >= 0:
                    st.flags[('eq',)] = 1
                elif vs[1] is not None and vs[1] < 0:
                    st.flags[('eq',)] = 0
        if resname(s) == 'contains' and any(y == ('c', 61) for y in subterms(s)):
            st.flags[('eq',)] = int(v)
        if resname(s) == 'exec_cd':
            st.flags[('cdok',)] = int(v)
        for x in subterms(t):
            if x[0] == 'size' and is_field(x[1], NEXTDIR) and x[1][0] == 'f':
                st.flags[('nodir',)] = 1 if st.val(x) == 0 else 0

    def call(self, eng, st, fr, node, ci):
        root = root_frame(fr)
        if ci.short == 'insert' and ci.recv is not None and ci.rloc is not None and ('Environment' in ci.name):
            src = strip_old(ci.recv)
            ok = resname(src) == 'environment' or is_field(src, 'Process::m_environment')
            self.rep.check(ok, 'C18.base', fr, node, 'set adds to the environment of the commands', 'set changes %s instead of the environment of the commands' % show(src), st)
            k, v = strip_old(ci.args[0]), strip_old(ci.args[1])
            if k[0] == 'obj' and k[2]:
                k = k[2][0]
            swap = resname(k) in ('mid', 'right') or resname(v) == 'left'
            self.rep.check(not swap, 'C18.pair', fr, node, 'name and value', 'set confuses name and value', st)
            st.flags[('ins',)] = show(ci.rloc)
        elif ci.has(C + 'setEnvironment') or ci.has('Process::setEnvironment'):
            self.same(st, fr, node, ci, 'own')
        elif ci.signal and ci.name == NS + ENVSIG:
            self.same(st, fr, node, ci, 'sig')
        elif ci.has(C + 'exec_cd'):
            st.flags[('cdcall',)] = 1
        elif ci.has(C + 'onProcessFinished'):
            if st.flags.get(('set',)) == 1 and st.flags.get(('eq',)) == 1:
                for k, m in (('ins', 'set does not set the variable'), ('own', 'a variable that was set does not reach the following commands of the target'),
                             ('sig', 'a variable that was set does not reach the commands of other targets')):
                    self.rep.check((k,) in st.flags, 'C18.set', fr, node, 'set: ' + k, m, st)
            if ('cdcall',) in st.flags:
                ok = st.flags.get(('cdok',))
                vs = st.vs(ci.args[0])
                if ok == 1:
                    self.rep.check(vs == FALSE, 'C18.cdstatus', fr, node, 'a successful cd has status 0', 'a successful cd has status %s' % show(ci.args[0]), st)
                elif ok == 0:
                    self.rep.check(not vs_has(vs, 0), 'C18.cdstatus', fr, node, 'a failed cd is a failure', 'a cd that failed is reported as success', st)
                else:
                    a = strip_old(ci.args[0])
                    self.rep.check(a[0] == 'op' and a[1] == '!' and resname(a[2]) == 'exec_cd', 'C18.cdstatus', fr, node, 'a failed cd is a failure', 'the result of cd is not regarded', st)
            self.rep.check(st.flags.get(('cd',)) != 1 or ('cdcall',) in st.flags, 'C18.cd', fr, node, 'cd changes the directory', 'cd is not executed', st)
        elif ci.has('Process::setWorkingDirectory'):
            a = strip_old(ci.args[0])
            if is_field(a, NEXTDIR):
                st.flags[('wd',)] = 1
        elif ci.has('Process::start'):
            self.rep.check(('wd',) in st.flags or st.flags.get(('nodir',)) == 1, 'C18.apply', fr, node, 'commands run in the directory changed to',
                           'a command is executed without the working directory that a preceding cd asked for', st)
        elif ci.rloc is not None and is_field(ci.rloc, NEXTDIR) and ci.short == 'clear':
            self.rep.check(('wd',) in st.flags or st.flags.get(('nodir',)) == 1, 'C18.apply', fr, node, 'the directory is not forgotten',
                           'the directory that a cd asked for is forgotten', st)

    def same(self, st, fr, node, ci, what):
        a = show(ci.alocs[0]) if ci.alocs and ci.alocs[0] is not None else None
        ins = st.flags.get(('ins',))
        self.rep.check(ins is not None and (a == ins or a is None), 'C18.set', fr, node, 'the changed environment is used: ' + what,
                       'the environment is replaced by one that does not contain the variable', st)
        st.flags[(what,)] = 1


class Cd(Rule):
    """exec_cd"""

    def branch(self, eng, st, fr, node, t, truth):
        s, v = truths(t, truth)
        if resname(s) in ('exists', 'isDir', 'cd'):
            st.flags[('dir',)] = int(v)
        for x in subterms(t):
            if x[0] == 'size' and st.val(x) == 0:
                if 'workingDirectory' in repr(x):
                    st.flags[('nowd',)] = 1
                elif any(y[0] == 'p' for y in subterms(x)) or 'arg' in repr(x) or x[1][0] in ('m', 'r', 'op'):
                    st.flags[('noarg',)] = 1

    def call(self, eng, st, fr, node, ci):
        if ci.short in ('exists', 'isDir', 'cd', 'absoluteFilePath', 'canonicalFilePath', 'absolutePath') and ci.name.startswith(('QFileInfo', 'QDir', 'QFile')):
            s = repr((ci.recv, ci.args))
            ok = 'workingDirectory' in s or 'm_workingDirectory' in s or ('nowd',) in st.flags
            self.rep.check(ok, 'C18.relative', fr, node, 'relative to the directory of the target: ' + ci.short,
                           'a relative directory is looked up elsewhere than in the working directory of the commands', st)

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, NEXTDIR):
            st.flags[('w',)] = 1
            self.rep.check(st.flags.get(('dir',)) == 1, 'C18.exists', fr, node, 'only an existing directory', 'the working directory is changed to one that may not exist', st)
            self.rep.check(resname(val) in ('absoluteFilePath', 'canonicalFilePath', 'absolutePath', 'cleanPath') or 'absolute' in repr(val), 'C18.relative', fr, node, 'the absolute path is used',
                           'the working directory is not absolute: the next cd would be resolved wrongly', st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret' or val is None:
            return
        v = st.truth(val)
        if ('w',) in st.flags:
            self.rep.check(v is True, 'C18.cdstatus', fr, node, 'a successful cd is a success', 'a successful cd is reported as failure', st)
        elif st.flags.get(('dir',)) == 0:
            self.rep.check(v is False, 'C18.cdstatus', fr, node, 'cd to a missing directory fails', 'cd to a missing directory is reported as success', st)
        elif v is not False:
            self.rep.check(('noarg',) in st.flags, 'C18.cd', fr, node, 'only cd without argument has no effect', 'cd to a directory may be reported as success without any effect', st)


class CdReset(Rule):
    """CommandExecutor::start: no directory is inherited from the previous target of the executor."""

    def call(self, eng, st, fr, node, ci):
        root = root_frame(fr)
        if ci.has('Process::setWorkingDirectory'):
            l = ('f', root.this, NS + NEXTDIR)
            a = ci.args[0]
            empty = a[0] == 'dflt' or st.val(('size', a)) == 0 or ('clr',) in st.flags and is_field(strip_old(a), NEXTDIR)
            st.flags[('wd',)] = int(bool(empty))
        elif ci.rloc is not None and is_field(ci.rloc, NEXTDIR) and ci.short == 'clear':
            st.flags[('clr',)] = 1
        elif ci.has(EXECUTE):
            nd = cur(st, root.this, NEXTDIR)
            self.rep.check(st.flags.get(('wd',)) == 1, 'C18.reset', fr, node, 'a target starts in the directory of jom', 'a target may start in the directory of the previous target', st)
            self.rep.check(('clr',) in st.flags or st.val(('size', nd)) == 0 or nd[0] == 'dflt', 'C18.reset', fr, node, 'a cd of the previous target is forgotten', 'a cd of the previous target may take effect in this one', st)

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, NEXTDIR) and (val[0] == 'dflt' or st.val(('size', val)) == 0):
            st.flags[('clr',)] = 1


class Pairs(EachRule):
    """Environment changes of each executor reach every other one."""
    EACH = 'C18.all'
    PER_ELEM = ('ab', 'ba')

    def each_want(self, elem):
        return origin_field(elem) == NS + 'TargetExecutor::m_processes'

    def each_name(self, elem):
        return 'the other executors'

    def call(self, eng, st, fr, node, ci):
        if ci.short != 'connect' or 'environmentChanged' not in repr(ci.args):
            return
        ok = 'setEnvironment' in repr(ci.args)
        self.rep.check(ok, 'C18.all', fr, node, 'connection to setEnvironment', 'environment changes are connected to something else', st)
        objs = [strip_old(a) for a in ci.args if strip_old(a)[0] in ('new', 'elem', 'r', 'this')]
        for e in self.each_current(st):
            if len(objs) >= 2:
                if objs[0] == e and objs[1] != e:
                    st.flags[('ba',)] = 1
                elif objs[1] == e and objs[0] != e:
                    st.flags[('ab',)] = 1

    def each_done(self, eng, st, fr, node, elem):
        self.rep.check(('ab',) in st.flags, 'C18.all', fr, node, 'from the new executor to the others', 'variables set by an executor do not reach those created before', st)
        self.rep.check(('ba',) in st.flags, 'C18.all', fr, node, 'from the others to the new executor', 'variables set by an executor do not reach those created later', st)


@check('C18')
def c18(prog, rep):
    rep.rule('C18.set', 'set changes the environment of the executor and announces the same environment')
    rep.rule('C18.base', 'which is its present environment with the variable added')
    rep.rule('C18.pair', 'name and value are not confused')
    rep.rule('C18.all', 'the announcement is connected between each two executors in both directions')
    rep.rule('C18.take', 'an executor takes over the environment given to it')
    rep.rule('C18.cd', 'cd to a directory changes the directory of the following commands')
    rep.rule('C18.cdstatus', 'cd fails iff the directory does not exist')
    rep.rule('C18.exists', 'only an existing directory is changed to')
    rep.rule('C18.relative', 'relative directories are resolved against the working directory of the commands, and stored as absolute path')
    rep.rule('C18.apply', 'a command is executed in the directory changed to')
    rep.rule('C18.reset', 'a target starts in the directory of jom')
    run_roots(prog, rep, SetCd(prog, rep), [EXECUTE], events=CEV, noinline=CNOIN + (C + 'exec_cd', C + 'isSimpleCommandLine'), small=0,
              keepfacts=lambda t: 'indexOf' in repr(t))
    rep.require('C18.set', 3)
    rep.require('C18.apply', 1)
    rep.require('C18.cdstatus', 1)
    run_roots(prog, rep, Cd(prog, rep), [C + 'exec_cd'], events=field_events(NEXTDIR), noinline=CNOIN)
    rep.require('C18.exists', 1)
    rep.require('C18.relative', 1)
    run_roots(prog, rep, CdReset(prog, rep), [C + 'start'], events=CEV, noinline=CNOIN + (EXECUTE,))
    rep.require('C18.reset', 2)
    run_roots(prog, rep, Pairs(prog, rep), ['TargetExecutor::TargetExecutor'], events=EXEC_EV, noinline=NOIN)
    rep.require('C18.all', 3)

    class Take(Rule):
        def call(self, eng, st, fr, node, ci):
            root = root_frame(fr).fn
            p = [('p', root.key, q['n']) for q in root.params if 'ProcessEnvironment' in q.get('ty', '') or 'QMap' in q.get('ty', '')]
            if ci.has('Process::setEnvironment'):
                ok = strip_old(ci.args[0]) in p
                self.rep.check(ok, 'C18.take', fr, node, 'the given environment is used', 'the commands get %s instead of the given environment' % show(ci.args[0]), st)
                st.flags[('n',)] = 1
            elif ci.short == 'createEnvBlock':
                a = strip_old(ci.args[0])
                self.rep.check(a in p, 'C18.take', fr, node, 'the environment block is made of it',
                               'the environment block is made of %s' % show(a), st)

        def write(self, eng, st, fr, node, loc, val, op):
            if is_field(loc, 'Process::m_environment'):
                root = root_frame(fr).fn
                if root.short == 'Process::setEnvironment':
                    self.rep.check(strip_old(val) == ('p', root.key, root.params[0]['n']), 'C18.take', fr, node, 'the process keeps the environment', 'the process keeps another environment', st)
                    st.flags[('n',)] = 1
            elif is_field(loc, 'Process::m_envBlock'):
                st.flags[('blk',)] = 1

        def exit(self, eng, st, fr, node, kind, val):
            if fr.parent is None and kind == 'ret':
                self.rep.check(('n',) in st.flags, 'C18.take', fr, node, 'the given environment is taken over', 'the given environment is not handed to the process', st)
                if fr.fn.short == 'Process::setEnvironment':
                    self.rep.check(('blk',) in st.flags, 'C18.take', fr, node, 'the environment block is renewed', 'the environment block is not renewed', st)
    run_roots(prog, rep, Take(prog, rep), [C + 'setEnvironment', C + 'CommandExecutor'], events=call_events('Process::setEnvironment'), noinline=('Process::setEnvironment',))
    run_roots(prog, rep, Take(prog, rep), ['Process::setEnvironment'], events=field_events('Process::m_environment', 'Process::m_envBlock'), noinline=('createEnvBlock',))
    rep.require('C18.take', 4)
