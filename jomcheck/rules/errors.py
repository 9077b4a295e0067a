"""C23: every error is reported and fails the build."""
from .common import *
from .registry import check
from .graph import enum_value
from .executor import cur

OUT = {'fprintf', 'fputs', 'printf', 'puts', 'fwrite', 'vfprintf', 'qWarning', 'fputc'}

TEXT = ('FileException::toString', 'Exception::toString', 'Exception::message')
ERROR = ('Parser::error', 'Preprocessor::error')


def handlers(prog):
    """[(function, catch node)] of all handlers of the program."""
    return [(f, n) for f in prog.funcs.values() for n in f.cfg.nodes if n.op == 'catch']


def stderr_arg(ci):
    for a in ci.args:
        for x in subterms(a):
            if x[0] == 'g' and 'stderr' in str(x[1]):
                return True
            if x[0] in ('m', 'r') and any('__acrt_iob_func' in str(y) or 'stderr' in str(y) for y in x[1:4]):
                return True
    return ci.short in ('qWarning', 'qCritical', 'qFatal')


class Report(Rule):
    """From a handler on: the message is passed on and the failure is recorded."""

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.setters = {f.key for f in prog.funcs.values() if f.short in ('MacroTable::internalSetMacroValue', 'MacroTable::setMacroValue')}

        self.small = {f.key for f in prog.funcs.values() if len(f.cfg.nodes) <= 40 and any(
            c.get('k') == 'call' and (c.get('f') or '').split('::')[-1] in OUT for c in prog.call_exprs(f))}

    def inline(self, eng, fn):
        return True if fn.key in self.small else None

    def caught(self, eng, st, fr, node):
        if fr.parent is not None:
            return
        st.flags[('c',)] = 1
        st.flags[('x',)] = strip_old(st.env.get(('exc', fr.id)) or ('none',))
        for k in ('msg', 'fail', 'macro'):
            st.flags.pop((k,), None)

    def has_msg(self, st, t):
        x = st.flags.get(('x',))
        for y in subterms(strip_old(t)):
            if y == x or callname(y) in ('message', 'toString') or resname(y) in ('message', 'toString') or \
                    y[0] == 'f' and y[2] == NS + 'Exception::m_message':
                return True
        return False

    def call(self, eng, st, fr, node, ci):
        if ('c',) not in st.flags:
            return
        if ci.short in OUT and any(self.has_msg(st, a) for a in ci.args) and stderr_arg(ci):
            st.flags[('msg',)] = 1
        if ci.has('TargetExecutor::abortBuild') or ci.has('TargetExecutor::finishBuild'):
            st.flags[('fail',)] = 1 if ci.args and st.truth(ci.args[0]) is True else 0
        if ci.key in self.setters or (ci.short in ('insert', 'operator[]') and is_container(ci, 'MacroTable::m_macros')):
            st.flags[('macro',)] = 1

    def write(self, eng, st, fr, node, loc, val, op):
        if ('c',) not in st.flags or val is None:
            return
        l = strip_old(loc)
        if l[0] == 'f' and l[2] == NS + 'MakefileFactory::m_errorString' and self.has_msg(st, val):
            st.flags[('msg',)] = 1
        if l[0] == 'f' and l[2] == NS + 'MakefileFactory::m_errorType':
            st.flags[('fail',)] = 1 if st.truth(val) is True else 0

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or ('c',) not in st.flags:
            return
        name = fr.fn.short
        if kind == 'throw':
            x = val[2] if isinstance(val, tuple) and len(val) > 2 else ('c', 0)
            self.rep.check(self.has_msg(st, x), 'C23.handler', fr, node,
                           'an exception that is thrown by a handler carries the message of the one it caught',
                           'the message of an error is lost: the exception thrown instead does not contain it', st)
            return
        if name == 'MacroTable::defineEnvironmentMacroValue':
            self.rep.check(('macro',) not in st.flags, 'C23.handler', fr, node, 'no macro is created from an environment variable with an error in it',
                           'a macro is created although its value cannot be expanded', st)
            return
        msg, fail = st.flags.get(('msg',)), st.flags.get(('fail',))
        if name == 'main':
            fail = val is not None and st.truth(val) is True
        elif fr.fn.d.get('ret') == 'bool':
            fail = fail and val is not None and st.truth(val) is False
        self.rep.check(bool(msg), 'C23.handler', fr, node, 'the message of an error that is caught is passed on',
                       'an error is caught and its message is not passed on', st)
        self.rep.check(bool(fail), 'C23.handler', fr, node, 'an error that is caught makes jom fail',
                       'an error is caught and jom goes on, or ends, as if nothing had happened', st)


class Factory(Rule):
    """MakefileFactory::apply: a failure has a type."""

    def ret(self, eng, st, fr, node, val):
        if fr.parent is not None:
            return
        t = cur(st, st_this(fr), 'MakefileFactory::m_errorType')
        r = st.truth(val) if val is not None else None
        e = st.truth(t) if t is not None else None
        ok = r is not None and (r is True or e is True) or r is None and same_truth(val, t)
        self.rep.check(ok, 'C23.type', fr, node, 'a makefile that cannot be read is a failure with a type',
                       'the result may be failure without a type of error: main would go on with it', st)
        self.rep.check(not (r is True and e is True), 'C23.type', fr, node, 'success means that there was no error', 'an error is reported as success', st)


def st_this(fr):
    return fr.this


def same_truth(val, t):
    """val is 'there is no error' in terms of the type t."""
    x, v = truths(val, True)
    return t is not None and x == strip_old(t) and v is False


class Main(Rule):
    """main: a failure of the factory ends it with an error and a message."""

    def __init__(self, prog, rep, types):
        Rule.__init__(self, prog, rep)
        self.types = types

    def branch(self, eng, st, fr, node, term, truth):
        t, v = truths(term, truth)
        if resname(t) == 'apply' and fr.parent is None:
            st.flags[('applied',)] = int(bool(v))
        t, v = strip_old(term), truth
        while t[0] == 'op' and t[1] == '!':
            t, v = t[2], not v
        if fr.parent is None and t[0] == 'op' and t[1] == '==' and any(
                callname(x) == 'errorType' or x[0] == 'f' and x[2] == NS + 'MakefileFactory::m_errorType' or resname(x) == 'errorType' for x in subterms(t)):
            for x in t[2:]:
                if x[0] == 'c' and v:
                    st.flags[('type',)] = x[1]
                elif x[0] == 'c':
                    st.flags[('not', x[1])] = 1
                    if all(('not', y) in st.flags for y in self.types):
                        st.flags[('none',)] = 1

    def call(self, eng, st, fr, node, ci):
        if st.flags.get(('applied',)) == 0:
            if ci.short in OUT and (stderr_arg(ci) or ci.short in ('printf', 'puts')):
                st.flags[('said',)] = 1
                if any(resname(x) == 'errorString' or callname(x) == 'errorString' or x[0] == 'f' and x[2] == NS + 'MakefileFactory::m_errorString'
                       for a in ci.args for x in subterms(a)):
                    st.flags[('said',)] = 2
            if ci.has('TargetExecutor::apply') or ci.has('TargetExecutor::TargetExecutor'):
                self.feasible(st, fr, node)

    def feasible(self, st, fr, node):
        # only with a type that the factory never sets
        self.rep.check(('none',) in st.flags, 'C23.main', fr, node, 'nothing is built if the makefile cannot be read',
                       'something is built although the makefile could not be read', st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret' or st.flags.get(('applied',)) != 0 or ('none',) in st.flags:
            return
        t = st.flags.get(('type',))
        if t is not None and t not in self.types:
            return
        want = 1 if t == self.types_cmd else 2
        self.rep.check(val is not None and st.truth(val) is True, 'C23.main', fr, node, 'jom fails if the makefile cannot be read',
                       'jom exits with 0 although the makefile could not be read', st)
        self.rep.check(st.flags.get(('said',), 0) >= want, 'C23.main', fr, node, 'the reason is printed if the makefile cannot be read',
                       'jom does not print why the makefile could not be read', st)


# operations that can fail: name -> value of the result that means failure
MAYFAIL = {'QFile::open': False, 'QIODevice::open': False, NS + 'JobServer::start': False, NS + 'JobClient::start': False,
           'initJobServer': False, NS + 'MakefileLineReader::open': False, NS + 'MakefileFactory::apply': False,
           NS + 'Options::readCommandLineArguments': False, NS + 'Options::expandCommandFiles': False,
           NS + 'Options::handleCommandLineOption': False, '_wfopen': False, '_wfreopen': False, 'fopen': False, 'freopen': False,
           'PPExprParser::parse': False, 'QTemporaryFile::open': False, 'QSaveFile::open': False}


class Result(Rule):
    """The result of an operation that can fail is looked at, and a failure is one of the caller, too."""

    def after(self, eng, st, fr, node, ci, res):
        if fr.parent is None and ci.name in MAYFAIL and not ci.e.get('const'):
            self.late(st, fr, node, 'another')
            st.flags[('pend',)] = (ci.short, strip_old(res) if res is not None else ('none',), node.line)
            st.flags.pop(('failed',), None)

    def late(self, st, fr, node, what):
        p = st.flags.pop(('pend',), None)
        if p is not None:
            self.rep.check(False, 'C23.result', fr, node, 'the result of %s is looked at' % p[0],
                           'the result of %s in line %s is not looked at: if it fails, nobody notices' % (p[0], p[2]), st)

    def branch(self, eng, st, fr, node, term, truth):
        p = st.flags.get(('pend',))
        if p is None:
            return
        t, v = truths(term, truth)
        if any(x == p[1] for x in subterms(t)):
            st.flags.pop(('pend',))
            self.rep.ok('C23.result', '%s: the result of %s is looked at' % (fr.fn.short, p[0]))
            if not v:
                st.flags[('failed',)] = p[0]

    def call(self, eng, st, fr, node, ci):
        if ('failed',) in st.flags and (ci.has('TargetExecutor::abortBuild') or ci.has('TargetExecutor::finishBuild')) \
                and ci.args and st.truth(ci.args[0]) is True:
            st.flags.pop(('failed',))
        if ('failed',) in st.flags and ci.short in ('exit', '_exit') and ci.args and st.truth(ci.args[0]) is True:
            st.flags.pop(('failed',))

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None:
            return
        p = st.flags.get(('pend',))
        if p is not None and val is not None and any(x == p[1] for x in subterms(strip_old(val))):
            st.flags.pop(('pend',))
            self.rep.ok('C23.result', '%s: the result of %s is passed on' % (fr.fn.short, p[0]))
        elif kind == 'ret':
            self.late(st, fr, node, 'exit')
        f = st.flags.pop(('failed',), None)
        if f is None or (fr.fn.short == 'main' and f == 'apply'):   # C23.main
            return
        ok = kind == 'throw'
        if not ok and val is not None:
            x = st.truth(val)
            ok = x is True if fr.fn.short == 'main' else x is False
        self.rep.check(ok, 'C23.result', fr, node, 'a failure of %s is one of its caller' % f,
                       'although %s failed, its caller succeeds' % f, st)


class Said(Rule):
    """The functions that read the command line say why they fail."""

    def call(self, eng, st, fr, node, ci):
        if ci.short in OUT and stderr_arg(ci):
            st.flags[('said',)] = 1

    def branch(self, eng, st, fr, node, term, truth):
        t, v = truths(term, truth)
        if not v and resname(t) in ('handleCommandLineOption', 'expandCommandFiles', 'readCommandLineArguments'):
            st.flags[('said',)] = 1     # it has said why

    def noreturn(self, eng, st, fr, node, ci):
        if ci.short in ('exit', '_exit', '_Exit', 'abort', 'quick_exit'):
            self.rep.check(('said',) in st.flags, 'C23.cmdline', fr, node, 'what is wrong with the command line is printed',
                           'jom ends without a reason', st)
            self.rep.check(ci.short == 'abort' or bool(ci.args) and st.truth(ci.args[0]) is True, 'C23.cmdline', fr, node,
                           'jom fails if it ends early', 'jom ends early with status 0', st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret' and val is not None and st.truth(val) is not True:
            self.rep.check(('said',) in st.flags, 'C23.cmdline', fr, node, 'what is wrong with the command line is printed',
                           'the command line is rejected without a reason', st)


def entries(prog):
    """Functions that must not be left by an exception."""
    res = {}
    for f in prog.event_entries():
        res[f] = 'slot'
    for f in prog.funcs.values():
        if f.short == 'main':
            res[f] = 'main'
        elif f.short.split('::')[-1].startswith('~'):
            res[f] = 'destructor'
        elif f.short.endswith('::run') and f.cls in prog.records and prog.derives(f.cls, 'QThread'):
            res[f] = 'thread'
        for c in prog.call_exprs(f):
            # functions handed over to a library
            if c.get('k') == 'call' and not prog.targets(c) and c.get('f') != 'QObject::connect':
                for a in c['a']:
                    from ..prog import walk
                    for x in walk(a):
                        if x.get('k') in ('fref', 'lambda') and x.get('u') in prog.funcs:
                            res.setdefault(prog.funcs[x['u']], 'callback')
    return res


@check('C23')
def c23(prog, rep):
    rep.rule('C23.escape', 'no exception leaves a slot, a thread, a destructor, a function called by a library, or main')
    rep.rule('C23.handler', 'whoever catches an exception passes on its message and makes jom fail')
    rep.rule('C23.place', 'an error found while a makefile is read is reported with file and line')
    rep.rule('C23.type', 'a makefile that cannot be read is a failure with a type of error')
    rep.rule('C23.main', 'jom prints the reason and exits with an error if the makefile or the command line cannot be read')
    rep.rule('C23.result', 'the result of an operation that can fail is looked at, and a failure makes the caller fail')
    rep.rule('C23.cmdline', 'whoever rejects the command line says why')
    rep.rule('C23.message', 'an exception is thrown with a message')
    thr = prog.throws()
    for f, what in sorted(entries(prog).items(), key=lambda x: x[0].key):
        t = thr.get(f.key) or ()
        if t:
            rep.bad('C23.escape', f.short, f.line, what, 'an exception (%s) may leave this function, which nobody catches' % ', '.join(sorted(x.split('::')[-1] for x in t)), file=f.file)
        else:
            rep.ok('C23.escape', f.short + ': ' + what)
    for f in prog.funcs.values():
        for n in f.cfg.nodes:
            if n.op == 'throw' and n.b.get('c'):
                ms = [x for x in walk(n.b) if x.get('k') == 'str' and x.get('v')] or [x for x in walk(n.b) if x.get('k') in ('var', 'call', 'tmp')]
                if ms:
                    rep.ok('C23.message', '%s:%s' % (f.short, n.b['c'].split('::')[-1]))
                else:
                    rep.bad('C23.message', f.short, n.line, 'no message', 'an exception is thrown without a message', file=f.file)
    # handlers
    for f in sorted({f for f, n in handlers(prog)}, key=lambda f: f.key):
        run_roots(prog, rep, Report(prog, rep), [f], inline=ERROR, limit=40,
                  events=call_events('TargetExecutor::abortBuild'), noinline=('TargetExecutor::abortBuild', 'TargetExecutor::finishBuild') + TEXT)
    place(prog, rep, thr)
    # factory
    ap = prog.fn(NS + 'MakefileFactory::apply')
    types = {enum_value(prog, x) for x in ('CommandLineError', 'ParserError', 'IOError')}
    run_roots(prog, rep, Factory(prog, rep), [ap], limit=40, noinline=TEXT)
    m = Main(prog, rep, types)
    m.types_cmd = enum_value(prog, 'CommandLineError')
    run_roots(prog, rep, m, ['main'], noinline=('TargetExecutor::apply',) + TEXT, limit=40)
    # results
    users = {f for f in prog.funcs.values() for c in prog.call_exprs(f) if c.get('k') == 'call' and c.get('f') in MAYFAIL}
    for f in sorted(users, key=lambda f: f.key):
        run_roots(prog, rep, Result(prog, rep), [f], limit=30, inline=ERROR, noinline=TEXT)
    for f in prog.fns(NS + 'Options::expandCommandFiles') + prog.fns(NS + 'Options::handleCommandLineOption') + prog.fns(NS + 'Options::readCommandLineArguments'):
        run_roots(prog, rep, Said(prog, rep), [f], limit=8, heapkeep=())
    rep.require('C23.escape', 10)
    rep.require('C23.handler', 6)
    rep.require('C23.result', 6)


def place(prog, rep, thr):
    """Errors while reading: every call by which a makefile is read may only throw what has a file and a line, or is within a try."""
    ap = prog.fn(NS + 'Parser::apply')
    rd = prog.fn(NS + 'Preprocessor::readLine')
    reading = prog.closure([ap])
    up = set()
    for f in reading:
        if rd in prog.closure([f]):
            up.add(f)
    for n in ap.cfg.nodes:
        if n.op != 'call':
            continue
        ts = prog.targets(n.b)
        bad = set()
        for t in ts:
            if t in up:
                bad |= {c for c in thr[t.key] if not prog.derives(c, NS + 'FileException')}
        if not bad:
            continue
        h = n.handlers
        caught = False
        while h:
            caught = caught or any(hc is None or all(prog.derives(c, hc) for c in bad) for hc, nid in h[0])
            h = h[1]
        rep.check(caught, 'C23.place', Site(ap), n, 'errors of %s get file and line' % ts[0].short.split('::')[-1],
                  'an error found by %s is reported without file and line' % ts[0].short)
    run_roots(prog, rep, Enrich(prog, rep), [ap], inline=ERROR, limit=40)


class Site(object):
    def __init__(self, fn):
        self.fn = fn


class Enrich(Rule):
    def caught(self, eng, st, fr, node):
        if fr.parent is None:
            st.flags[('c',)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or ('c',) not in st.flags:
            return
        cls = val[1] if kind == 'throw' and isinstance(val, tuple) and len(val) > 1 else None
        self.rep.check(kind == 'throw', 'C23.place', fr, node, 'an error ends the reading of the makefile', 'reading goes on after an error', st)
        if kind == 'throw':
            self.rep.check(cls == '?' or self.p.derives(cls, NS + 'FileException'), 'C23.place', fr, node, 'the error gets file and line',
                           'an error is passed on without file and line', st)
