"""C19, C21, C22: output, handles and environment of child processes."""
from .common import *
from .registry import check
from .graph import enum_value
from .executor import root_frame, cur

PS = 'Process::m_state'
HP = 'ProcessPrivate::hProcess'
OPENS = {'CreateNamedPipeW': 'CloseHandle', 'CreateNamedPipeA': 'CloseHandle', 'CreateFileW': 'CloseHandle',
         'CreateFileA': 'CloseHandle', 'OpenProcess': 'CloseHandle', 'CreateEventW': 'CloseHandle', 'CreateMutexW': 'CloseHandle',
         'CreateSemaphoreW': 'CloseHandle',
         'FindFirstFileW': 'FindClose', 'FindFirstFileExW': 'FindClose', 'FindFirstFileA': 'FindClose', 'fopen': 'fclose',
         '_wfopen': 'fclose', 'wfopen': 'fclose', '_wcsdup': 'free', 'wcsdup': 'free', 'strdup': 'free', '_strdup': 'free'}
INVALID = {'fopen': 0, '_wfopen': 0, 'wfopen': 0, '_wcsdup': 0, 'wcsdup': 0, 'strdup': 0, '_strdup': 0, 'OpenProcess': 0,
           'CreateEventW': 0, 'CreateMutexW': 0, 'CreateSemaphoreW': 0}
CLOSES = set(OPENS.values())
SPAWN = ('CreateProcessW', 'CreateProcessA', 'CreateProcessAsUserW')
USESTD = 0x100


def opened(n):
    return n.op in ('call', 'new') and n.b.get('f') in OPENS


def path_of(loc):
    """The fields on the way to a location, outermost first."""
    r = []
    l = strip_old(loc)
    while isinstance(l, tuple) and l and l[0] in ('f', 'adr'):
        if l[0] == 'adr':
            l = l[1]
            continue
        r.append(l[2][len(NS):] if l[2].startswith(NS) else l[2])
        l = l[1]
    r.reverse()
    return tuple(r)


def pipe_path(p):
    """The last two fields: which pipe and which end of it."""
    return p[-2:]


def struct_field(eng, st, arg, name):
    """Value of a member of the structure an argument points to, else None; position of list items from order of members."""
    if arg[0] != 'adr':
        return None
    base = eng.obj_of(st, arg[1])
    for b in (base, arg[1]):
        for l, v in st.heap.items():
            if l[0] == 'f' and l[1] == b and l[2].split('::')[-1] == name:
                return v
    if base[0] == 'list':
        i = MEMBERS.get(name)
        return base[1][i] if i is not None and i < len(base[1]) else ('c', 0)
    if base[0] == 'dflt':
        return ('c', 0)
    return None


MEMBERS = {'bInheritHandle': 2}


class Handles(Rule):
    """Typestate of handles: flags ('open', h) -> name of the function, ('inh', h) -> 0/1, ('closed', h) -> 1."""
    RULE = 'C21.leak'

    def prune(self, st):
        for k in [k for k in st.flags if k[0] == 'open']:
            if st.val(k[1]) == INVALID.get(st.flags[k], -1):
                del st.flags[k]
                st.flags.pop(('inh', k[1]), None)

    def branch(self, eng, st, fr, node, term, truth):
        self.prune(st)

    def after(self, eng, st, fr, node, ci, res):
        if ci.name in OPENS and res is not None:
            st.flags[('open', res)] = ci.name
            if ci.name.startswith('Create'):
                st.flags[('inh', res)] = self.inherit
            self.created(eng, st, fr, node, ci, res)

    def created(self, eng, st, fr, node, ci, res):
        pass

    def call(self, eng, st, fr, node, ci):
        if ci.name in CLOSES and ci.args:
            self.close(eng, st, fr, node, ci, ci.args[0])
        elif ci.name in OPENS and ci.name.startswith('Create'):
            # the call may change what its arguments point to: look before
            i = 7 if 'Pipe' in ci.name else 3 if 'File' in ci.name else 0
            a = ci.args[i] if i < len(ci.args) else ('c', 0)
            v = struct_field(eng, st, a, 'bInheritHandle') if a[0] == 'adr' else ('c', 0)
            x = st.truth(v) if v is not None else None
            self.inherit = -1 if x is None else int(x)

    def close(self, eng, st, fr, node, ci, h):
        key = ('closed', h)
        if ci.name != 'free':
            self.rep.check(key not in st.flags, 'C21.twice', fr, node, 'no handle is closed twice',
                           '%s is closed a second time; it may be the handle of something else by then' % show(strip_old(h)), st)
        o = st.flags.pop(('open', h), None)
        st.flags.pop(('inh', h), None)
        if o is not None:
            self.rep.check(OPENS[o] == ci.name, 'C21.leak', fr, node, 'what %s returned is closed with %s' % (o, OPENS[o]),
                           'what %s returned is passed to %s' % (o, ci.name), st)
        st.flags[key] = 1
        self.closing(eng, st, fr, node, ci, h)

    def closing(self, eng, st, fr, node, ci, h):
        pass

    def leaked(self, st, skip=()):
        self.prune(st)
        return [(k[1], v) for k, v in st.flags.items() if k[0] == 'open' and k[1] not in skip]


def about_handles(t):
    return any(x[0] == 'r' and len(x) > 3 and x[3][:-2] in OPENS for x in subterms(t)) or 'CreateProcess' in repr(t)


class Local(Handles):
    """Handles of functions other than Process::start: closed on every path unless they are stored or returned."""

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None:
            return
        kept = set(st.heap.values())
        kept.add(val)
        for h, f in self.leaked(st):
            self.rep.check(h in kept, 'C21.leak', fr, node, 'what %s returned is closed' % f,
                           'what %s returned is not closed on this path' % f, st)
        self.rep.check(True, 'C21.leak', fr, node, 'nothing stays open at the end', '') if not self.leaked(st) else None


class Start(Handles):
    def __init__(self, prog, rep, chan):
        Handles.__init__(self, prog, rep)
        self.chan = chan            # field of the pipe -> 'stdout'/'stderr'
        self.left = {}              # path of field -> example
        self.procs = set()          # paths of fields that hold process handles
        self.notif = set()
        self.ok = 0
        self.own = {n[len(NS):].split('::')[0] for n in prog.fieldinfo if n.startswith(NS)}

    def call(self, eng, st, fr, node, ci):
        Handles.call(self, eng, st, fr, node, ci)
        if ci.signal and ci.short in ('error', 'finished'):
            # what is connected to it may start the next process
            self.settle(eng, st, root_frame(fr), node, 'ret')
            st.flags[('announced',)] = 1
        elif ci.name in SPAWN:
            self.spawn(eng, st, fr, node, ci)
        elif ci.short == 'setHandle' and ci.args:
            st.flags[('notify', ci.args[0])] = 1

    def after(self, eng, st, fr, node, ci, res):
        Handles.after(self, eng, st, fr, node, ci, res)
        if ci.name in SPAWN:
            st.flags[('spawned',)] = res
            pi = ci.args[-1]
            if pi[0] == 'adr':
                st.flags[('pi',)] = eng.obj_of(st, pi[1])

    def spawn(self, eng, st, fr, node, ci):
        si = ci.args[-2]
        self.rep.check(st.truth(ci.args[4]) is True, 'C21.inherit', fr, node, 'the process inherits handles',
                       'the process does not inherit the handles of its pipes', st)
        fl = struct_field(eng, st, si, 'dwFlags')
        self.rep.check(fl is not None and fl[0] == 'c' and fl[1] & USESTD, 'C21.inherit', fr, node,
                       'the standard handles are passed', 'the standard handles are not passed (STARTF_USESTDHANDLES)', st)
        given = {}
        for m, want in (('hStdInput', 'stdin'), ('hStdOutput', 'stdout'), ('hStdError', 'stderr')):
            h = struct_field(eng, st, si, m)
            if h is None:
                h = ('c', 0)
            given[h] = m
            if ('open', h) not in st.flags:
                self.rep.check(st.val(h) == -1, 'C21.inherit', fr, node, '%s is the end of a pipe' % m,
                               '%s is not an open end of a pipe' % m, st)
                continue
            self.rep.check(st.flags.get(('inh', h)) == 1, 'C21.inherit', fr, node, '%s can be inherited' % m,
                           '%s is not created as handle that can be inherited' % m, st)
            locs = [path_of(l) for l, v in st.heap.items() if v == h and l[0] == 'f' and 'Pipe::' in l[2]]
            ch = [self.chan.get(p[-2]) for p in locs if len(p) > 1]
            if want == 'stdin':
                good = all(c is None for c in ch) and all(p[-1].endswith('hRead') for p in locs)
            else:
                good = want in ch and all(p[-1].endswith('hWrite') for p in locs)
            self.rep.check(bool(locs) and good, 'C21.wire', fr, node, '%s of the process is the right end of its pipe' % m,
                           '%s of the process is %s' % (m, ', '.join('.'.join(x.split('::')[-1] for x in p[-2:]) for p in locs) or 'no pipe of this process'), st)
        for h, f in self.leaked(st):
            if h not in given and f != '_wcsdup':
                self.rep.check(st.flags.get(('inh', h)) == 0, 'C21.inherit', fr, node, 'the other ends are not inherited',
                               'the end of a pipe that jom keeps can be inherited by the processes it starts', st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and ('announced',) not in st.flags:
            self.settle(eng, st, fr, node, kind)

    def settle(self, eng, st, fr, node, kind):
        self.prune(st)
        state = st.val(cur(st, ('this',), PS))
        running = state == enum_value(self.p, 'Running')
        if not running:
            self.rep.check(state == enum_value(self.p, 'NotRunning') or kind != 'ret', 'C21.leak', fr, node,
                           'the process is either running or not running when start() returns', 'start() returns in an undecided state', st)
        spawned = st.flags.get(('spawned',))
        if spawned is not None and not running and st.truth(spawned) is not False:
            self.rep.check(False, 'C21.leak', fr, node, '', 'the process was created, but its handles are forgotten', st)
        here = {}
        for l, v in st.heap.items():
            if l[0] == 'f' and path_of(l)[0].split('::')[0] in self.own:
                here.setdefault(v, []).append(l)
        for h, f in self.leaked(st):
            p = [pipe_path(path_of(l)) for l in here.get(h, ())]
            if not running or not p:
                self.rep.check(False, 'C21.leak', fr, node, '', '%s that %s returned stays open%s' % (
                    self.name(p, h), f, '' if running else ' although no process was started'), st)
                continue
            for x in p:
                self.left.setdefault(x, (f, st))
                reads = x[-1].endswith('hRead') and self.chan.get(x[0]) is not None
                self.rep.check(reads, 'C21.leak', fr, node, 'only the ends jom reads from stay open',
                               '%s stays open in jom while the process runs' % '.'.join(y.split('::')[-1] for y in x), st)
        for k in [k for k in st.flags if k[0] == 'closed']:
            for l in here.get(k[1], ()):
                self.rep.check(False, 'C21.reset', fr, node, '',
                               '%s still holds a handle that is closed' % show(strip_old(l)), st)
        self.rep.check(True, 'C21.reset', fr, node, 'fields of closed handles are reset', '')
        if not running:
            self.rep.check(True, 'C21.leak', fr, node, 'nothing stays open when the process does not run', '')
            return
        self.ok += 1
        pi = st.flags.get(('pi',))
        for m in ('hProcess', 'hThread'):
            hs = [v for v in list(here) + [k[1] for k in st.flags if k[0] == 'closed']
                  if v[0] == 'f' and v[2].split('::')[-1] == m and 'PROCESS_INFORMATION' in v[2].upper()]
            self.rep.check(bool(hs), 'C21.leak', fr, node, '%s of the new process is kept or closed' % m,
                           '%s of the new process is neither kept nor closed' % m, st)
            for h in hs:
                for l in here.get(h, ()):
                    self.left.setdefault(pipe_path(path_of(l)), ('CreateProcess', st))
                    if m == 'hProcess':
                        self.procs.add(pipe_path(path_of(l)))
                        if ('notify', h) in st.flags:
                            self.notif.add(pipe_path(path_of(l)))

    def name(self, p, h):
        return '.'.join(y.split('::')[-1] for y in p[0]) if p else 'the handle'


class End(Handles):
    def __init__(self, prog, rep, left, notif):
        Handles.__init__(self, prog, rep)
        self.left = left
        self.notif = notif

    def branch(self, eng, st, fr, node, term, truth):
        t, v = truths(term, truth)
        # a handle that was found invalid needs no closing
        for l in [x for x in subterms(term) if x[0] in ('f', 'old')]:
            if st.val(l) == -1:
                st.flags[('none', pipe_path(path_of(l)))] = 1
        Handles.branch(self, eng, st, fr, node, term, truth)

    def call(self, eng, st, fr, node, ci):
        if ci.short == 'setEnabled' and ci.args and 'otifier' in show(ci.recv or ('u',)):
            st.flags[('off',)] = st.truth(ci.args[0]) is False
        if ci.signal and ci.short == 'finished':
            # what is connected to it may start the next process
            self.done(st, fr, node)
            st.flags[('announced',)] = 1
        Handles.call(self, eng, st, fr, node, ci)

    def closing(self, eng, st, fr, node, ci, h):
        p = pipe_path(path_of(h))
        st.flags[('did', p)] = 1
        if p in self.notif:
            self.rep.check(st.flags.get(('off',)) is True, 'C21.notifier', fr, node,
                           'the notifier of the process is off before its handle is closed',
                           'the handle of the process is closed while its notifier still waits on it', st)

    def done(self, st, fr, node):
        here = {pipe_path(path_of(l)): (l, v) for l, v in st.heap.items() if l[0] == 'f'}
        for p in self.left:
            name = '.'.join(y.split('::')[-1] for y in p)
            self.rep.check(('did', p) in st.flags or ('none', p) in st.flags, 'C21.end', fr, node, '%s is closed when the process ended' % name,
                           '%s is not closed when the process ended' % name, st)
            if ('did', p) in st.flags:
                l, v = here.get(p, (None, None))
                self.rep.check(v is not None and st.val(v) == -1, 'C21.reset', fr, node, '%s is reset' % name,
                               '%s still holds the handle that was closed' % name, st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and ('ran',) in st.flags and ('announced',) not in st.flags:
            self.done(st, fr, node)

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, PS):
            st.flags[('ran',)] = 1


class Port(Rule):
    def call(self, eng, st, fr, node, ci):
        if ci.short == 'wait' and 'Thread' in (ci.e.get('cls') or ci.name):
            st.flags[('waited',)] = 1
        elif ci.name == 'PostQueuedCompletionStatus':
            st.flags[('posted',)] = 1
        elif ci.name == 'CloseHandle' and is_field(ci.args[0], 'IoCompletionPort::hPort'):
            st.flags[('closed',)] = 1
            self.rep.check(('waited',) in st.flags and ('posted',) in st.flags, 'C21.port', fr, node,
                           'the port is closed after its thread was told to end and did so',
                           'the port is closed while its thread may use it', st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None:
            self.rep.check(('closed',) in st.flags, 'C21.port', fr, node, 'the port is closed', 'the port is not closed', st)


class Wiring(Rule):
    """Which channel writes to which stream and reads from which pipe."""

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.pipe = {}
        self.stream = {}

    def write(self, eng, st, fr, node, loc, val, op):
        if loc[0] != 'f' or val is None:
            return
        n = loc[2].split('::')[-1]
        ch = path_of(loc)[-2:-1]
        if loc[2] == NS + 'OutputChannel::pipe' and ch:
            self.pipe.setdefault(ch[0], set()).add(path_of(val)[-1:])
        elif loc[2] == NS + 'OutputChannel::stream' and ch:
            self.stream.setdefault(ch[0], set()).add(val)


def stream_name(v):
    s = show(strip_old(v))
    for n in ('stdout', 'stderr', 'stdin'):
        if n in s:
            return n
    if 'iob' in s:
        for x in subterms(v):
            if x[0] == 'c':
                return {0: 'stdin', 1: 'stdout', 2: 'stderr'}.get(x[1])
    return None


def wiring(prog, rep):
    w = Wiring(prog, rep)
    run_roots(prog, rep, w, [f for f in prog.funcs.values() if f.name == NS + 'ProcessPrivate::ProcessPrivate'], small=0)
    chan = {}
    for ch, ps in w.pipe.items():
        ss = {stream_name(v) for v in w.stream.get(ch, ())}
        if len(ps) == 1 and len(ss) == 1:
            chan[list(ps)[0][0]] = list(ss)[0]
    return chan, w


@check('C21')
def c21(prog, rep):
    rep.rule('C21.leak', 'every handle is closed when it is not used any more: nothing stays open if the process cannot be started, and while it runs only what jom reads from')
    rep.rule('C21.end', 'what stayed open while the process ran is closed when it ended')
    rep.rule('C21.twice', 'no handle is closed twice')
    rep.rule('C21.reset', 'a field whose handle was closed is reset, as the destructor of the pipe and the next start close what it holds')
    rep.rule('C21.notifier', 'the notifier is off before the handle of the process is closed')
    rep.rule('C21.inherit', 'the process inherits its ends of the pipes, and only these')
    rep.rule('C21.wire', 'standard output and error of the process are the pipes of the channels that print to them')
    rep.rule('C21.port', 'the completion port is closed after its thread ended')
    chan, w = wiring(prog, rep)
    start = Start(prog, rep, chan)
    e = either(opened, call_events('CloseHandle', 'FindClose', 'fclose', 'free', *SPAWN))
    run_roots(prog, rep, start, ['Process::start'], events=e, unroll=True, limit=60, keepfacts=about_handles,
              noinline=('IoCompletionPort::instance', 'IoCompletionPort::registerObserver', 'IoCompletionPort::unregisterObserver',
                        'IoCompletionPort::destroyInstance'))
    if not start.ok:
        raise AnalysisError('no path on which a process runs')
    run_roots(prog, rep, End(prog, rep, start.left, start.notif), ['Process::onProcessFinished'], unroll=True, small=0,
              events=either(call_events('CloseHandle', 'Process::finished'), field_events(PS)),
              noinline=('IoCompletionPort::instance', 'IoCompletionPort::registerObserver', 'IoCompletionPort::unregisterObserver',
                        'Process::printBufferedOutput'))
    run_roots(prog, rep, Port(prog, rep), ['IoCompletionPort::~IoCompletionPort'],
              events=call_events('CloseHandle', 'PostQueuedCompletionStatus'))
    inl = prog.closure(prog.fns('Process::start'))
    rest = [f for f in prog.funcs.values() if f not in inl and any(opened(n) for n in f.cfg.nodes)]
    if rest:
        run_roots(prog, rep, Local(prog, rep), rest, keepfacts=about_handles, limit=60,
                  events=either(opened, call_events('CloseHandle', 'FindClose', 'fclose')))


# ---------------------------------------------------------------- C22: the environment of the child
N = ('sym', 'written')
BLOCK = ('sym', 'block')
UNICODE_ENV = 0x400


def poly(t):
    """A linear expression: {atom: factor}, atom 1 for constants; None if it is not linear."""
    t = strip_old(t)
    if t[0] == 'c':
        return {1: t[1]}
    if t[0] == 'op' and len(t) == 4 and t[1] in ('+', '-'):
        a, b = poly(t[2]), poly(t[3])
        if a is None or b is None:
            return None
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if t[1] == '+' else -v)
        return {k: v for k, v in r.items() if v}
    if t[0] == 'op' and len(t) == 4 and t[1] in ('*', '<<'):
        a, b = poly(t[2]), poly(t[3])
        if t[1] == '<<':
            b = {1: 1 << t[3][1]} if t[3][0] == 'c' and 0 <= t[3][1] < 8 else None
        for x, y in ((a, b), (b, a)):
            if x is not None and y is not None and set(x) <= {1}:
                f = x.get(1, 0)
                return {k: v * f for k, v in y.items() if v * f}
        return {t: 1}
    return {t: 1}


def peq(a, b):
    return a is not None and b is not None and {k: v for k, v in a.items() if v} == {k: v for k, v in b.items() if v}


def padd(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v}


def freeze(p):
    return tuple(sorted(p.items(), key=repr))


def is_key(t):
    """Is the term the name of the variable that is looked at?"""
    t = strip_old(t)
    if t[0] == 'm' and callname(t) == 'toQString' and t[2] is not None:
        t = t[2]
    if t[0] == 'f' and t[2] == NS + 'ProcessEnvironmentKey::m_key':
        t = t[1]
    return t[0] == 'key' or (t[0] == 'elem' and callname(t[1]) in ('keys', 'uniqueKeys'))


def is_value(t):
    t = strip_old(t)
    if t[0] == 'elem' and len(t) > 3:           # container[key]
        return is_key(t[2])
    if t[0] == 'elem':
        return not is_key(t)
    return t[0] == 'm' and callname(t) == 'value' and bool(t[3]) and is_key(t[3][0])


def measure(t):
    """Linear form with the sizes of name and value as atoms 'k' and 'v'."""
    p = poly(t)
    if p is None:
        return None
    r = {}
    for a, f in p.items():
        if a in (('sym', 'k'), ('sym', 'v')):
            a = a[1]
        elif isinstance(a, tuple) and a[0] == 'size':
            if is_key(a[1]):
                a = 'k'
            elif is_value(a[1]):
                a = 'v'
        r[a] = r.get(a, 0) + f
    return {k: v for k, v in r.items() if v}


class EnvBlock(Rule):
    """Builds the picture of the block: flags 'w' bytes written (linear), 'sz' size, 'stage' what of the entry was written."""
    TEXT = {0: 'its name', 1: 'the equals sign', 2: 'its value', 3: 'the zero at its end'}

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.entries = 0

    def blk(self, ci):
        return ci.rloc is not None and ci.rloc[0] == 'loc' and bare_cls(ci.e.get('cls')) == 'QByteArray'

    def get(self, st, k):
        return dict(st.flags.get((k,), ()))

    def put(self, st, k, p):
        st.flags[(k,)] = freeze(p)

    def wrote(self, eng, st, fr, node, off, n, src, rough=False):
        """src bytes of length n arrive at offset off."""
        w = self.get(st, 'w')
        self.rep.check(peq(off, w), 'C22.place', fr, node, 'what is written follows what was written before',
                       'this is not written to the place that follows what was written before', st)
        self.put(st, 'w', padd(w, n))
        stage = st.flags.get(('stage',))
        zero = src == ('c', 0) or (src[0] == 's' and not src[1].strip('\0'))
        if stage is None:
            if zero:
                z = self.get(st, 'z')
                self.put(st, 'z', padd(z, n))
            else:
                self.rep.check(False, 'C22.entry', fr, node, '', 'something is written that belongs to no variable', st)
            return
        ok = False
        if stage == 0:
            ok = is_key(src) and peq(n, {'k': 2})
            if ('first',) in st.flags:
                for x in subterms(src):
                    if x[0] == 'key':
                        self.rep.check(x[2] == ('c', 0), 'C22.all', fr, node, 'the loop starts at the first variable',
                                       'the loop does not start at the first variable', st)
        elif stage == 1:
            ok = src == ('c', 61) and peq(n, {1: 2})
        elif stage == 2:
            ok = is_value(src) and peq(n, {'v': 2})
        elif stage == 3:
            ok = zero and peq(n, {1: 2})
        self.rep.check(ok, 'C22.entry', fr, node, 'an entry consists of name, =, value and zero',
                       'what is written here is not %s, completely and in UTF-16' % self.TEXT.get(stage, 'part of the entry'), st)
        st.flags[('stage',)] = min(stage + 1, 4)

    def call(self, eng, st, fr, node, ci):
        if self.blk(ci):
            sz = self.get(st, 'sz')
            if ci.short in ('size', 'length', 'count') and not ci.args:
                return [(st, unpoly(sz))]
            if ci.short in ('data', 'begin', 'constData'):
                return [(st, ('op', '+', BLOCK, ('c', 0)))]
            if ci.short == 'resize' and ci.args:
                self.put(st, 'sz', measure(ci.args[0]) or {})
            elif ci.short in ('append', 'push_back', 'operator+='):
                n = src = None
                a = ci.args
                if len(a) == 2 and a[0][0] == 'c' and a[1][0] == 'c' and '(const char *' not in ci.key:
                    n, src = {1: a[0][1]}, a[1]
                elif len(a) == 2:
                    n, src = measure(a[1]), strip_old(a[0])
                elif len(a) == 1 and a[0][0] == 'c':
                    n, src = {1: 1}, a[0]
                elif len(a) == 1 and a[0][0] == 'obj' and 'QByteArray' in a[0][1] and len(a[0][2]) == 2:
                    x, y = a[0][2]
                    n, src = ({1: x[1]}, y) if x[0] == 'c' else (measure(y), strip_old(x))
                if n is not None:
                    self.wrote(eng, st, fr, node, sz, n, src)
                else:
                    self.rep.check(False, 'C22.entry', fr, node, '', 'what is appended here is no known part of an entry', st)
                self.put(st, 'sz', padd(sz, n or {}))
        elif ci.name in ('memcpy', 'memmove', 'wmemcpy') and len(ci.args) == 3:
            d = measure(ci.args[0]) or {}
            if d.pop(BLOCK, 0) == 1:
                n = measure(ci.args[2])
                if ci.name == 'wmemcpy' and n is not None:
                    n = {k: 2 * v for k, v in n.items()}
                self.wrote(eng, st, fr, node, d, n or {}, strip_old(ci.args[1]))
                self.fits(st, fr, node)
        elif 'ProcessEnvironmentKey,' in ci.name and ci.rloc is not None:
            if ci.short == 'insert' and len(ci.args) == 2:
                nm = self.keyname(ci.args[0])
                src = self.osname(ci.args[1])
                if nm and src:
                    self.rep.check(nm == src, 'C22.add', fr, node, 'a missing variable is taken from the environment of jom',
                                   'the value of %s is inserted as %s' % (src, nm), st)
                    st.flags[('has', nm)] = 1
                st.flags[('into',)] = ci.rloc
            elif ci.short in ('constBegin', 'begin', 'cbegin', 'keys', 'uniqueKeys'):
                self.iterated(st, fr, node, ci.rloc)
            elif ci.short in ('remove', 'take', 'clear', 'erase'):
                self.rep.check(False, 'C22.all', fr, node, '', 'variables are removed from the environment', st)
        elif ci.short == 'qSetEnvironmentVariable' and len(ci.args) == 2 and self.keyname(ci.args[0]) == 'path':
            st.flags[('own',)] = 1
        return None

    def iterated(self, st, fr, node, loc):
        i = st.flags.get(('into',))
        self.rep.check(i is None or i == loc, 'C22.add', fr, node, 'the environment with the added variables is written',
                       'the added variables are not in the environment that is written', st)

    def fits(self, st, fr, node):
        w, sz = self.get(st, 'w'), self.get(st, 'sz')
        d = padd(sz, {k: -v for k, v in w.items()})
        self.rep.check(all(v >= 0 for v in d.values()), 'C22.size', fr, node, 'the block is large enough for what is written',
                       'more is written than the block is large', st)

    def keyname(self, t):
        for x in subterms(t):
            if x[0] == 's':
                return x[1].lower()
        return None

    def osname(self, t):
        t = strip_old(t)
        return self.keyname(t) if resname(t) in ('qGetEnvironmentVariable', 'qgetenv', 'qEnvironmentVariable') else None

    def write(self, eng, st, fr, node, loc, val, op):
        if loc[0] == 'elem' and val is not None and op != 'decl':
            c = strip_old(loc[1])
            # the single bytes of the block
            if self.isblock(st, c):
                self.wrote(eng, st, fr, node, measure(loc[2]) or {}, {1: 1}, val)
                self.fits(st, fr, node)

    def isblock(self, st, c):
        for k, v in st.env.items():
            if k[0] == 'v' and strip_old(v) == c and ('array',) in st.flags and st.flags[('array',)] == (k[1], k[2]):
                return True
        return False

    def branch(self, eng, st, fr, node, term, truth):
        t, v = truths(term, truth)
        if callname(t) == 'contains' and v and t[3]:
            nm = self.keyname(t[3][0])
            if nm:
                st.flags[('has', nm)] = 1
                if nm == 'path':
                    st.flags[('mine',)] = 1
        if t[0] == 'size' and not v and self.osname(t[1]):
            st.flags[('has', self.osname(t[1]))] = 1
        for x in subterms(t):
            if x[0] == 'size' and strip_old(x[1])[0] == 'p':
                st.flags[('asked',)] = int(bool(v))
        if ('stage',) in st.flags:
            m = None
            if t[0] == 'size':
                m, zero = measure(t), not v
            elif t[0] == 'op' and t[1] == '==' and len(t) == 4:
                a, b = measure(t[2]), measure(t[3])
                if a is not None and b is not None:
                    m, zero = padd(a, {k: -x for k, x in b.items()}), v
            if m is not None and zero and m.get('k') and set(m) <= {'k', 'v'} and all(x * m['k'] > 0 for x in m.values()):
                st.flags[('noname',)] = 1

    def loop(self, eng, st, fr, node, what, lid):
        if not self.mine(fr, lid):
            return
        if what == 'iter':
            st.flags.pop(('first',), None)
            if N not in self.get(st, 'w'):
                st.flags[('first',)] = 1
            self.normal(st)
            st.flags[('stage',)] = 0
            st.flags.pop(('noname',), None)
        else:
            stage = st.flags.pop(('stage',), 0)
            skipped = st.flags.pop(('noname',), None)
            if stage == 0:
                self.rep.check(skipped is not None, 'C22.all', fr, node, 'only entries without name are left out',
                               'a variable is left out of the environment of the process', st)
            else:
                self.entries += 1
                self.rep.check(stage == 4, 'C22.entry', fr, node, 'an entry is complete', '%s of an entry is not written' % self.TEXT.get(stage, 'a part'), st)
                self.rep.check(peq(self.get(st, 'w'), self.get(st, 'sz')), 'C22.size', fr, node, 'the block grows by the size of the entry',
                               'the block does not grow by the size of the entry', st)
            ok, why = loop_complete(fr.fn.cfg.loops[lid])
            self.rep.check(ok, 'C22.all', fr, node, 'the loop reaches every variable', 'the loop does not reach every variable: %s' % why, st)
            self.normal(st)

    def mine(self, fr, lid):
        """Is this the loop over the variables?"""
        c = getattr(self, 'loops', None)
        if c is None:
            c = self.loops = {}
        k = (fr.fn.key, lid)
        if k not in c:
            lp = fr.fn.cfg.loops[lid]
            txt = repr(lp.container) + repr(lp.cond) + repr(lp.init)
            c[k] = lp.kind == 'foreach' or 'iterator' in txt or 'ProcessEnvironment' in txt
        return c[k]

    def normal(self, st):
        """Start of an iteration: the offsets are given relative to what is written."""
        w = self.get(st, 'w')
        for k, v in list(st.env.items()):
            if k[0] == 'v' and k in self.counters and v != N and peq(measure(v), w):
                st.env[k] = N
        if peq(self.get(st, 'sz'), w):
            self.put(st, 'sz', {N: 1})
        self.put(st, 'w', {N: 1})

    def enter(self, eng, st, fr):
        # variables that are changed after their declaration
        if fr.parent is None:
            self.counters = set()
        for n in fr.fn.cfg.nodes:
            if n.op == 'assign' and n.a.get('k') == 'var' and n.c not in ('tmp',) and n.a.get('id') is not None:
                self.counters.add(('v', fr.id, n.a['id']))
            if n.op == 'decl' and (n.a.get('rec') == 'QByteArray' or 'QByteArray' in n.a.get('ty', '')) and fr.parent is None:
                st.flags[('array',)] = (fr.id, n.a['id'])

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        if self.get(st, 'w') == {}:
            self.rep.check(st.flags.get(('asked',)) == 0, 'C22.all', fr, node, 'there is a block unless there is no environment',
                           'no block is made although there is an environment', st)
            return
        self.rep.check(peq(self.get(st, 'w'), self.get(st, 'sz')), 'C22.size', fr, node, 'all of the block is written',
                       'the size of the block is not what was written', st)
        self.rep.check(self.get(st, 'z').get(1, 0) >= 2, 'C22.end', fr, node, 'the block ends with an empty entry',
                       'the block does not end with an empty entry', st)
        for nm in ('path', 'systemroot'):
            self.rep.check(('has', nm) in st.flags, 'C22.add', fr, node, '%s is in the block if jom has it' % nm,
                           '%s of jom is not given to the process if the environment lacks it' % nm, st)
        self.rep.check(('mine',) not in st.flags or ('own',) in st.flags, 'C22.path', fr, node, 'a changed PATH is used to find the executable',
                       'a changed PATH is not used to find the executable', st)


def bare_cls(c):
    return (c or '').split('<')[0]


def unpoly(p):
    r = None
    for k, v in sorted(p.items(), key=repr):
        if k == 1:
            t = ('c', v)
        else:
            a = k if isinstance(k, tuple) else ('sym', k)
            t = a if v == 1 else ('op', '*', a, ('c', v))
        r = t if r is None else ('op', '+', r, t)
    return r if r is not None else ('c', 0)


class SetEnv(Rule):
    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.builders = set()

    def after(self, eng, st, fr, node, ci, res):
        if ci.targets and res is not None and fr.parent is None:
            env = ci.args[0] if ci.args else cur(st, fr.this, 'Process::m_environment')
            st.flags[('from', res)] = env

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None:
            return
        env = cur(st, fr.this, 'Process::m_environment')
        b = cur(st, fr.this, 'Process::m_envBlock')
        src = st.flags.get(('from', b))
        self.rep.check(env[0] == 'p', 'C22.same', fr, node, 'the environment is the one that was given', 'the environment is not the one that was given', st)
        self.rep.check(src is not None and src == env, 'C22.same', fr, node, 'the block is made of the environment of the process',
                       'the block is not made of the environment that is set', st)


class Pass(Rule):
    """CreateProcess gets the block."""

    def call(self, eng, st, fr, node, ci):
        if ci.name not in SPAWN:
            return
        b = ci.args[6]
        here = mentions_field(b, 'Process::m_envBlock')
        empty = any(x[0] == 'size' and is_field(x[1], 'Process::m_envBlock') and st.truth(x) is False
                    for t in list(st.facts) for x in subterms(t))
        self.rep.check(here or (b == ('c', 0) and empty), 'C22.pass', fr, node, 'the process gets the block unless there is none',
                       'the block is not passed to the process', st)
        f = ci.args[5]
        self.rep.check(f[0] == 'c' and f[1] & UNICODE_ENV, 'C22.pass', fr, node, 'the block is announced as UTF-16',
                       'the block is not announced as UTF-16 (CREATE_UNICODE_ENVIRONMENT)', st)


class Less(Rule):
    """Names of variables are compared without regard to case."""

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or val is None:
            return
        ok = False
        neg = False
        t = strip_old(val)
        while t[0] == 'op' and t[1] == '!':
            t, neg = t[2], not neg
        if t[0] == 'op' and t[1] == '<' and not neg:
            a, b = t[2], t[3]
            if b == ('c', 0) and callname(a) in ('compare', 'localeAwareCompare'):
                ps = [self.of(a[2])] + [self.of(x) for x in a[3][:2]] if a[2] is not None else [self.of(x) for x in a[3][:2]]
                ps = [x for x in ps if x is not None]
                cs = a[3][-1]
                ok = ps[:2] == [0, 1] and (cs == ('c', 0) or self.folded(a))
            elif self.folded(a) and self.folded(b):
                ok = (self.of(a), self.of(b)) == (0, 1)
        self.rep.check(ok, 'C22.case', fr, node, 'names of variables are compared without regard to case',
                       'names of variables are not compared without regard to case in the order of the arguments', st)

    def of(self, t):
        for x in subterms(t):
            if x[0] == 'p':
                return 0 if x[2] in ('lhs', self.first) else 1
        return None

    def folded(self, t):
        return any(callname(x) in ('toLower', 'toUpper', 'toCaseFolded') for x in subterms(t) if x[0] == 'm')

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.first = fr.fn.params[0]['n']


@check('C22')
def c22(prog, rep):
    rep.rule('C22.entry', 'for each variable name, =, value and a zero are written, complete and in UTF-16')
    rep.rule('C22.place', 'what is written follows immediately what was written before')
    rep.rule('C22.size', 'the block is as large as what is written')
    rep.rule('C22.all', 'every variable that has a name is written')
    rep.rule('C22.end', 'the block ends with an empty entry')
    rep.rule('C22.add', 'PATH and SystemRoot of jom are added if the environment lacks them')
    rep.rule('C22.path', 'a PATH that was changed is used to find the executable')
    rep.rule('C22.same', 'environment and block are always set together')
    rep.rule('C22.pass', 'the block is passed to the process')
    rep.rule('C22.case', 'names of variables are compared without regard to case')
    s = SetEnv(prog, rep)
    run_roots(prog, rep, s, ['Process::setEnvironment'], small=0)
    # functions that build the block: they return an array of bytes
    build = [f for f in prog.closure(prog.fns('Process::setEnvironment')) if 'QByteArray' in (f.d.get('ret') or '') and f.cfg.loops]
    if not build:
        build = prog.fns('createEnvBlock')
    b = EnvBlock(prog, rep)
    run_roots(prog, rep, b, build, steps='all', events=lambda n: n.op == 'call' and (n.b.get('f') == 'memcpy' or 'ProcessEnvironmentKey,' in n.b.get('f', '')),
              noinline=('qGetEnvironmentVariable', 'qSetEnvironmentVariable'), heapkeep=None, limit=200, keepfacts=lambda t: 'size' in repr(t) or 'contains' in repr(t))
    if not b.entries:
        raise AnalysisError('no entry of the environment block is written')
    run_roots(prog, rep, Pass(prog, rep), ['Process::start'], small=0, heapkeep=(), limit=30, keepfacts=lambda t: mentions_field(t, 'Process::m_envBlock'),
              noinline=('IoCompletionPort::instance', 'IoCompletionPort::registerObserver'), events=call_events(*SPAWN))
    less = [f for f in prog.funcs.values() if f.short == 'operator<' and 'ProcessEnvironmentKey' in repr(f.params)]
    if not less:
        raise AnalysisError('no comparison of names of variables')
    run_roots(prog, rep, Less(prog, rep), less, inline=('ProcessEnvironmentKey::compare', 'ProcessEnvironmentKey::toQString'))
