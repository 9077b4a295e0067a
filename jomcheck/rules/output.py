"""C19: the output of the commands."""
from .common import *
from .registry import check
from .executor import cur, root_frame
from .process import wiring, path_of, stream_name, poly, peq, padd
from .threads import LockRule, callers

BO = 'Process::m_bufferedOutput'
BUF = 'OutputChannel::buffers'
SWITCH = NS + 'ProcessPrivate::bufferedOutputModeSwitchMutex'
CONSOLE = 'consoleMutex'
# function -> (arguments with the text, argument with the stream)
WRITES = {'fputs': (0, 1), 'fwrite': (0, 3), 'fprintf': (1, 0), 'printf': (0, None), 'puts': (0, None), 'fputc': (0, 1),
          'putc': (0, 1), 'putchar': (0, None), 'vfprintf': (1, 0), 'vprintf': (0, None), 'fwrite_binary': (1, 0)}


def is_call(n):
    return n.op in ('call', 'new')


def tops(prog, goals, stop=lambda f: False):
    """The functions from which the goal functions are reached first: going up until nobody calls, or a constructor."""
    seen, res, todo = set(), [], list(goals)
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        cs = [c[0] if isinstance(c, tuple) else c for c in callers(prog, f)]
        cs = [c for c in cs if c is not f]
        if not cs or f.d.get('ctor') or f.short.split('::')[0] == f.short.split('::')[-1] or stop(f):
            res.append(f)
        else:
            todo.extend(cs)
    return res


def holds(st, op, a, b):
    t, neg = cmp_term(op, a, b)
    x = st.truth(t)
    return x if x is None or not neg else not x


class One(Rule):
    """At most one executor at a time writes directly."""

    def call(self, eng, st, fr, node, ci):
        if ci.short != 'setBufferedOutput' or not ci.args or ci.recv is None:
            return
        x = st.truth(ci.args[0])
        fd, tk = st.flags.get(('freed',), 0), st.flags.get(('taken',), 0)
        if x is True:
            if self.direct(st, ci.recv):
                st.flags[('freed',)] = min(fd + 1, 2)
                st.flags[('was', strip_old(ci.recv))] = 1
            return
        ctor = eng.mon.root.short.split('::')[0] == eng.mon.root.short.split('::')[-1]
        self.rep.check(x is False and (tk < fd or (ctor and tk == 0)), 'C19.one', fr, node,
                       'an executor writes directly only after the one that did so has stopped doing it',
                       'an executor starts to write directly although another one may do so', st)
        st.flags[('taken',)] = min(tk + 1, 2)

    def direct(self, st, ex):
        for t, v in list(st.flags.items()):
            if t[0] == 'mode' and t[1] == strip_old(ex) and v == 0:
                return True
        return False

    def branch(self, eng, st, fr, node, term, truth):
        t, v = truths(term, truth)
        if callname(t) == 'isBufferedOutputSet' and t[2] is not None:
            st.flags[('mode', strip_old(t[2]))] = int(bool(v))

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'back':
            for k in [k for k in st.flags if k[0] == 'mode' and any(x[0] == 'elem' for x in subterms(k[1]))]:
                del st.flags[k]

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        ctor = fr.fn.short.split('::')[0] == fr.fn.short.split('::')[-1]
        fd, tk = st.flags.get(('freed',), 0), st.flags.get(('taken',), 0)
        self.rep.check(tk == (1 if ctor else fd), 'C19.one', fr, node, 'one executor writes directly in the end',
                       'no executor writes directly any more' if tk < max(fd, int(ctor)) else 'more than one executor writes directly', st)


class Guarded(Rule):
    """Direct output of the executor: only if its process does not buffer."""

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.open = []

    def call(self, eng, st, fr, node, ci):
        if ci.short not in WRITES or ci.name.startswith(NS):
            return
        if any(x[0] == 'f' and x[2] == NS + BO and st.truth(x) is False for f in list(st.facts) + [None] for x in subterms(f or ())):
            st_ok = True
        else:
            st_ok = st.flags.get(('direct',)) == 1
        if st_ok:
            self.rep.check(True, 'C19.route', fr, node, 'direct output only if the process does not buffer', '')
        else:
            self.open.append((fr, node, st))

    def branch(self, eng, st, fr, node, term, truth):
        t, v = truths(term, truth)
        if (t[0] == 'f' and t[2] == NS + BO) or callname(t) == 'isBufferedOutputSet':
            st.flags[('direct',)] = int(not v)


class Route(Rule):
    """writeToStandardOutput and its like: the text goes to exactly one place, completely."""

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.want = None

    def call(self, eng, st, fr, node, ci):
        s = None
        if ci.short in ('writeToStdOutBuffer', 'writeToStdErrBuffer') and ci.args:
            s, data, how = ('stdout' if 'Out' in ci.short else 'stderr'), ci.args[0], 1
        elif ci.short in WRITES and not ci.name.startswith(NS):
            a, b = WRITES[ci.short]
            s = 'stdout' if b is None else stream_name(ci.args[b]) if b < len(ci.args) else None
            data, how = ci.args[a], 0
        if s is None:
            return
        mode = st.flags.get(('mode',))
        self.rep.check(mode == how, 'C19.route', fr, node, 'text is buffered if and only if the process buffers',
                       'the text is %s although the process %s' % (('buffered', 'may not buffer') if how else ('written at once', 'may buffer')), st)
        p = strip_old(data)
        while p[0] == 'm' and p[2] is not None and callname(p) in ('constData', 'data', 'operator const char *', 'operator const void *'):
            p = strip_old(p[2])
        if p[0] == 'elem':
            p = strip_old(p[1])
        self.rep.check(p[0] == 'p', 'C19.route', fr, node, 'all of the text is passed on', 'not the text itself is passed on, but %s' % show(p), st)
        n = st.flags.get(('n',), 0)
        st.flags[('n',)] = min(n + 1, 2)
        if self.want:
            self.rep.check(s == self.want, 'C19.route', fr, node, 'text for %s goes there' % self.want, 'text for %s goes to %s' % (self.want, s), st)

    def branch(self, eng, st, fr, node, term, truth):
        t, v = truths(term, truth)
        if (t[0] == 'f' and t[2] == NS + BO) or callname(t) == 'isBufferedOutputSet':
            st.flags[('mode',)] = int(bool(v))

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            n = st.flags.get(('n',), 0)
            self.rep.check(n == 1, 'C19.route', fr, node, 'the text is passed on once', 'the text is %s' % ('passed on twice' if n else 'lost'), st)


def append_of(ci):
    """Channel and value, if the call appends to the buffers of a channel."""
    if ci.short in ('append', 'push_back', 'operator<<', 'operator+=', 'prepend', 'push_front', 'insert', 'emplace_back', 'emplaceBack') \
            and is_container(ci, BUF) and ci.args:
        b = recv_base(ci, BUF)
        return b, list(ci.args[-1:] if ci.short == 'insert' else ci.args)
    return None


def chan_name(base):
    """Field of the process in which a channel is kept."""
    b = strip_old(base)
    while b[0] == 'adr':
        b = strip_old(b[1])
    return b[2][len(NS):] if b[0] == 'f' else None


class Append(Rule):
    """Text of jom about the commands goes to the buffer of its channel."""

    def __init__(self, prog, rep, stream):
        Rule.__init__(self, prog, rep)
        self.stream = stream
        self.want = None

    def call(self, eng, st, fr, node, ci):
        a = append_of(ci)
        if a is None:
            return
        self.rep.check(ci.short not in ('prepend', 'push_front', 'insert'), 'C19.buffer', fr, node, 'output is appended to the buffer',
                       'output is not added at the end of the buffer', st)
        vals = a[1]
        ps = [x for v in vals for x in subterms(v) if x[0] == 'p']
        cut = any(callname(x) in ('left', 'mid', 'right', 'trimmed', 'simplified', 'chopped') for v in vals for x in subterms(v) if x[0] == 'm')
        self.rep.check(bool(ps) and not cut, 'C19.buffer', fr, node, 'all of the text is appended', 'what is appended is not the text', st)
        s = self.stream.get(chan_name(a[0]))
        self.rep.check(s == self.want, 'C19.buffer', fr, node, 'the text is appended to the channel for %s' % self.want,
                       'text for %s is appended to the channel for %s' % (self.want, s), st)
        st.flags[('n',)] = min(st.flags.get(('n',), 0) + 1, 2)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            n = st.flags.get(('n',), 0)
            self.rep.check(n == 1, 'C19.buffer', fr, node, 'the text is appended once', 'the text is %s' % ('appended twice' if n else 'lost'), st)


def in_mode(t):
    t = strip_old(t)
    return (t[0] == 'f' and t[2] == NS + BO) or callname(t) == 'isBufferedOutputSet'


class Notified(LockRule):
    """What is read from the pipe is buffered or written, in the mode that holds for as long as this takes."""

    def __init__(self, prog, rep):
        LockRule.__init__(self, prog, rep)
        self.seen = 0

    def acquire(self, eng, st, fr, node, l):
        if l[1] == SWITCH:
            # what was read before the mutex was taken may be out of date
            for k, v in list(st.env.items()):
                if k[0] == 'v' and mentions_field(v, BO):
                    st.env[k] = ('sym', 'stale')
        LockRule.acquire(self, eng, st, fr, node, l)

    def release(self, eng, st, fr, node, l):
        if l[1] == SWITCH:
            st.flags.pop(('mode',), None)
        LockRule.release(self, eng, st, fr, node, l)

    def branch(self, eng, st, fr, node, term, truth):
        t, v = truths(term, truth)
        t, v = truths(term, truth, raw=True)
        if in_mode(t) and t[0] != 'old' and any(n == SWITCH for b, n in self.held(st)):
            st.flags[('mode',)] = int(bool(v))
        if t[0] == 'p' and fr.parent is None and t == self.count(fr):
            st.flags[('some',)] = int(bool(v))

    def count(self, fr):
        for p in fr.fn.params[:1]:
            return ('p', fr.fn.key, p['n'])

    def emitted(self, st, fr, node, how, args, what):
        st.flags[('n',)] = min(st.flags.get(('n',), 0) + 1, 2)
        self.seen += 1
        mode = st.flags.get(('mode',))
        self.rep.check(mode == how, 'C19.mode', fr, node, 'output is %s in the mode that is set, which cannot change meanwhile' % what,
                       'output is %s although the mode is not known to ask for it (read while %s is held)' % (what, 'the mutex of the mode'), st)
        raw = any(resname(x) in ('fromRawData', 'setRawData') for a in args for x in subterms(a))
        num = any(x[0] == 'p' for a in args for x in subterms(a))
        data = any(mentions_field(a, 'OutputChannel::intermediateOutputBuffer') for a in args)
        off = any(x[0] == 'op' and x[1] in ('+', '-') for a in args for x in subterms(a))
        self.rep.check(data and num and not off and not (raw and how), 'C19.buffer', fr, node, 'all bytes that were read are %s' % what,
                       'what is %s is not a copy of the bytes that were read' % what, st)

    def call(self, eng, st, fr, node, ci):
        r = self.lock_call(eng, st, fr, node, ci)
        if r is not None:
            return r
        a = append_of(ci)
        if a is not None:
            self.rep.check(ci.short not in ('prepend', 'push_front', 'insert'), 'C19.buffer', fr, node, 'output is appended to the buffer',
                           'output is not added at the end of the buffer', st)
            self.rep.check(strip_old(a[0]) == ('this',), 'C19.buffer', fr, node, 'output is added to its own channel',
                           'output is added to another channel', st)
            self.emitted(st, fr, node, 1, ci.args, 'buffered')
        elif ci.short in WRITES or ci.name in self.writers:
            i = self.writers.get(ci.name, WRITES.get(ci.short, (0, None))[1])
            s = ci.args[i] if i is not None and i < len(ci.args) else ('u',)
            self.rep.check(is_field(s, 'OutputChannel::stream') and strip_old(s)[1] == ('this',), 'C19.buffer', fr, node,
                           'output is written to the stream of its channel', 'output is not written to the stream of its channel', st)
            self.rep.check(any(n == CONSOLE for b, n in self.held(st)), 'C19.piece', fr, node, 'output is written while nobody else prints',
                           'output is written although another process may be printing its buffer', st)
            self.emitted(st, fr, node, 0, ci.args, 'written')
        elif ci.short in ('startRead', 'ReadFile'):
            self.taken(st, fr, node, 'before the next read')
        return None

    def taken(self, st, fr, node, when):
        if st.flags.get(('some',)) == 0:
            return
        n = st.flags.get(('n',), 0)
        self.rep.check(n == 1, 'C19.buffer', fr, node, 'bytes that were read are taken over once %s' % when,
                       'bytes that were read are %s %s' % ('taken over twice' if n else 'not taken over', when), st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            self.taken(st, fr, node, 'at the end')


class Mode(LockRule):
    """Process::setBufferedOutput."""

    def acquire(self, eng, st, fr, node, l):
        LockRule.acquire(self, eng, st, fr, node, l)

    def release(self, eng, st, fr, node, l):
        if l[1] == SWITCH:
            self.torn(st, fr, node)
            st.flags.pop(('printed',), None)
        LockRule.release(self, eng, st, fr, node, l)

    def torn(self, st, fr, node):
        if ('off',) in st.flags:
            self.rep.check(('printed',) in st.flags, 'C19.mode', fr, node, 'what is buffered is printed when the process stops buffering',
                           'the process stops buffering, but what is buffered is not printed before later output', st)
            st.flags[('done',)] = 1
            del st.flags[('off',)]

    def locked(self, st):
        return any(n == SWITCH for b, n in self.held(st))

    def write(self, eng, st, fr, node, loc, val, op):
        self.lock_write(eng, st, fr, node, loc, val, op)
        if is_field(loc, BO) and val is not None:
            self.rep.check(self.locked(st), 'C19.mode', fr, node, 'the mode changes while no output is taken over',
                           'the mode changes while output may be taken over', st)
            if st.truth(val) is not True:
                st.flags[('off',)] = 1

    def call(self, eng, st, fr, node, ci):
        r = self.lock_call(eng, st, fr, node, ci)
        if r is not None:
            return r
        if self.locked(st) and any(t in self.printers for t in ci.targets):
            st.flags[('printed',)] = 1

    def branch(self, eng, st, fr, node, term, truth):
        if ('off',) in st.flags and st.truth(cur(st, root_frame(fr).this, BO)) is True:
            del st.flags[('off',)]

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            self.torn(st, fr, node)
            v = cur(st, fr.this, BO)
            ok = v[0] == 'p' or any(holds(st, '==', v, x) is True for x in self.params(fr)) or \
                any(st.truth(v) is not None and st.truth(v) == st.truth(x) for x in self.params(fr))
            self.rep.check(ok, 'C19.mode', fr, node, 'the mode is what was asked for', 'the mode is not what was asked for', st)

    def params(self, fr):
        return [('p', fr.fn.key, p['n']) for p in fr.fn.params]


class Flush(Rule):
    """What is buffered when a process has ended is printed."""

    def __init__(self, prog, rep, printers, channels):
        Rule.__init__(self, prog, rep)
        self.printers = printers
        self.channels = channels

    def call(self, eng, st, fr, node, ci):
        if ci.short == 'unregisterObserver' and ci.args:
            st.flags[('off', chan_name(ci.args[0]))] = 1
        elif any(t in self.printers for t in ci.targets):
            for c in self.channels:
                self.rep.check(('off', c) in st.flags, 'C19.flush', fr, node, 'the rest is printed when %s gets no output any more' % c.split('::')[-1],
                               'the buffers are printed while %s may still get output' % c.split('::')[-1], st)
            st.flags[('printed',)] = 1
        elif ci.signal and ci.short == 'finished':
            self.done(st, fr, node)
        elif ci.short in ('ReadFile', 'PeekNamedPipe', 'GetOverlappedResult'):
            st.flags[('drained',)] = 1

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, 'Process::m_state') and op != 'decl':
            st.flags[('end',)] = 1

    def done(self, st, fr, node):
        self.rep.check(('printed',) in st.flags, 'C19.flush', fr, node, 'what is buffered is printed before the process counts as finished',
                       'what is buffered is not printed when the process is finished', st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret' and (('end',) in st.flags or '~' in fr.fn.short):
            self.done(st, fr, node)


class Drain(Rule):
    """Output that is still in the pipe when the process ended."""

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.n = 0

    def call(self, eng, st, fr, node, ci):
        if ci.short in ('ReadFile', 'PeekNamedPipe', 'GetOverlappedResult'):
            st.flags[('drained',)] = 1
        elif ci.short == 'CloseHandle' and ci.args and any(p.endswith('hRead') for p in path_of(ci.args[0])):
            self.n += 1
            if ('drained',) in st.flags:
                self.rep.ok('C19.drain', 'Process::onProcessFinished: unread output')
            else:
                self.rep.bad('C19.drain', 'Process::onProcessFinished', node.line, 'unread output',
                             'the pipe of a process that ended is closed without a look whether output is left in it', st, fr.fn.file)


class Print(LockRule):
    """printBufferedOutput: everything is printed in order, in one piece."""

    def __init__(self, prog, rep, channels):
        LockRule.__init__(self, prog, rep)
        self.channels = channels
        self.seen = 0

    def bufs(self, st, fr):
        """The buffers of both channels as terms."""
        d = cur(st, root_frame(fr).this, 'Process::d')
        return [('f', ('f', d, NS + c), NS + BUF) for c in self.channels]

    def empty(self, st, fr, why):
        r = True
        for t in self.bufs(st, fr):
            ch = strip_old(t)[1][2]
            r = r and st.flags.get(('size', ch)) == 0
        return r

    def branch(self, eng, st, fr, node, term, truth):
        t, v = truths(term, truth)
        if t[0] == 'size' and is_field(t[1], BUF):
            c = chan_name(strip_old(t[1])[1])
            if c:
                st.flags[('size', NS + c)] = int(bool(v))
        elif t[0] == 'op' and t[1] == '<':
            c = [self.stamp(x) for x in t[2:4]]
            if None not in c:
                # c[0] < c[1]?
                st.flags[('first',)] = c[0] if v else c[1]
                st.flags[('tie',)] = int(not v)

    def stamp(self, t):
        t = strip_old(t)
        if t[0] == 'f' and t[2] == NS + 'TimeStampedBuffer::timestamp' and all(
                x[2] in (('c', 0), ('s', 'first')) for x in subterms(t) if x[0] == 'elem' and len(x) > 2):
            return self.chan_of(t, ())
        return None

    def chan_of(self, t, flags):
        for x in subterms(t):
            if x[0] == 'f' and x[2] == NS + BUF:
                c = chan_name(x[1])
                if c:
                    return NS + c
        for k, v in dict(flags).items():
            if k[0] == 'took' and any(x == k[1] for x in subterms(strip_old(t))):
                return v
        return None

    def after(self, eng, st, fr, node, ci, res):
        if ci.short in ('takeFirst', 'dequeue', 'takeAt', 'removeFirst', 'pop_front', 'removeAt') and is_container(ci, BUF):
            b = recv_base(ci, BUF)
            c = NS + (chan_name(b) or '?')
            ok = ci.short not in ('takeAt', 'removeAt') or ci.args[0] == ('c', 0)
            self.rep.check(ok, 'C19.order', fr, node, 'the first part of the buffer is removed', 'not the first part of the buffer is removed', st)
            self.rep.check(('rem',) not in st.flags, 'C19.order', fr, node, 'each part of the buffer is removed once',
                           'a second part of the buffer is removed', st)
            st.flags[('rem',)] = c
            if ci.short.startswith('take') or ci.short == 'dequeue':
                self.choose(st, fr, node, c)
                st.flags[('took', strip_old(res))] = c
            st.flags.pop(('size', c), None)

    def choose(self, st, fr, node, c):
        self.rep.check(st.flags.get(('size', c)) == 1, 'C19.order', fr, node, 'a part of the buffer is printed if there is one',
                       'the buffer may be empty', st)
        for o in self.channels:
            o = NS + o
            if o != c:
                ok = st.flags.get(('size', o)) == 0 or st.flags.get(('first',)) == c
                self.rep.check(ok, 'C19.order', fr, node, 'the oldest part is printed first',
                               'the part that is printed may be newer than the first one of the other channel', st)

    def call(self, eng, st, fr, node, ci):
        r = self.lock_call(eng, st, fr, node, ci)
        if r is not None:
            return r
        if ci.short in ('clear', 'removeLast', 'takeLast', 'pop_back') and is_container(ci, BUF):
            self.rep.check(False, 'C19.order', fr, node, '', 'parts of the buffer are removed that were not printed', st)
        if ci.name in self.writers or (ci.short in WRITES and not ci.name.startswith(NS)):
            i = self.writers.get(ci.name, WRITES.get(ci.short, (0, None))[1])
            stream = strip_old(ci.args[i]) if i is not None else ('u',)
            rest = [a for k, a in enumerate(ci.args) if k != i]
            self.seen += 1
            cs = {self.chan_of(a, st.flags) for a in rest if a[0] != 'c'}
            c = list(cs)[0] if len(cs) == 1 else None
            sc = chan_name(stream[1]) if is_field(stream, 'OutputChannel::stream') else None
            self.rep.check(c is not None and sc is not None and NS + sc == c, 'C19.order', fr, node,
                           'a part of the buffer is written to the stream of its channel', 'what is written here is not a part of the buffer of the stream', st)
            data = any(strip_old(x)[0] == 'f' and strip_old(x)[2] == NS + 'TimeStampedBuffer::buffer' for a in rest for x in subterms(a))
            size = any(x[0] == 'size' and is_field(x[1], 'TimeStampedBuffer::buffer') for a in rest for x in subterms(a))
            off = any(x[0] == 'op' for a in rest for x in subterms(a))
            first = all(x[2] in (("c", 0), ("s", "first")) for a in rest for x in subterms(a) if x[0] == 'elem' and is_field(x[1], BUF) and len(x) > 2)
            self.rep.check(data and size and not off and first, 'C19.order', fr, node, 'all of the first part of the buffer is written',
                           'not all of the first part of the buffer is written', st)
            self.rep.check(st.flags.get(('n',)) is None, 'C19.order', fr, node, 'each part is written once', 'a second part is written before the first one is removed', st)
            st.flags[('n',)] = c
            if ('rem',) not in st.flags and c:
                self.choose(st, fr, node, c)
            self.rep.check(any(n == CONSOLE for b, n in self.held(st)), 'C19.piece', fr, node, 'the buffer is printed while nobody else prints',
                           'the buffer is printed although others may be printing', st)
        return None

    def release(self, eng, st, fr, node, l):
        if l[1] == CONSOLE:
            self.rep.check(self.empty(st, fr, ''), 'C19.piece', fr, node, 'the console is given back when everything is printed',
                           'others may print before everything is printed', st)
        LockRule.release(self, eng, st, fr, node, l)

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'back':
            n, r = st.flags.pop(('n',), None), st.flags.pop(('rem',), None)
            self.rep.check(n == r, 'C19.order', fr, node, 'what is written is removed from the buffer',
                           'a part is removed that was not written' if n is None else 'what is written is not removed from the buffer', st)
            for k in [k for k in st.flags if k[0] in ('took', 'first', 'tie', 'size')]:
                del st.flags[k]

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            self.rep.check(self.empty(st, fr, ''), 'C19.flush', fr, node, 'everything is printed', 'not everything that is buffered is printed', st)


def subst(t, a, b):
    if t == a:
        return b
    return tuple(subst(x, a, b) for x in t) if isinstance(t, tuple) else t


POS = ('sym', 'pos')
REST = ('sym', 'rest')


class Writer(Rule):
    """A function that writes a number of bytes to a stream."""

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.n = 0

    def enter(self, eng, st, fr):
        if fr.parent is None:
            st.flags[('p',)] = None
            self.vs = {}
            for k, v in st.env.items():
                if k[0] == 'v' and v[0] == 'p':
                    self.vs[k] = v
            ps = fr.fn.params
            self.ptr = [i for i, p in enumerate(ps) if '*' in p.get('ty', '') and 'FILE' not in p.get('ty', '') and 'iobuf' not in p.get('ty', '')]

    def call(self, eng, st, fr, node, ci):
        if ci.short != 'fwrite' or len(ci.args) < 4:
            return
        self.n += 1
        p, a, b = strip_old(ci.args[0]), poly(ci.args[1]), poly(ci.args[2])
        n = None
        if a is not None and set(a) <= {1}:
            n = {k: v * a.get(1, 0) for k, v in (b or {}).items()}
        elif b is not None and set(b) <= {1}:
            n = {k: v * b.get(1, 0) for k, v in (a or {}).items()}
        inloop = st.flags.get(('in',)) is not None
        start = {POS: 1} if inloop else None
        pp = poly(p)
        if inloop:
            at = dict(st.flags.get(('w',), ()))
            self.rep.check(peq(pp, padd({POS: 1}, at)), 'C19.write', fr, node, 'a piece is written that follows the one before',
                           'the piece that is written here does not follow the one before', st)
            st.flags[('w',)] = tuple(sorted(padd(at, n or {}).items(), key=repr))
            k = st.flags[('last',)] = ci.args[2] if a == {1: 1} else ci.args[1]
            fits = k == REST or (callname(k) in ('qMin', 'min') and REST in k[3]) or holds(st, '<', REST, k) is False \
                or holds(st, '<', k, REST) is True
            self.rep.check(fits, 'C19.write', fr, node, 'no more is written than there is', 'more may be written than there is', st)
        else:
            self.rep.check(p[0] == 'p' and n is not None and len(n) == 1 and list(n.values()) == [1] and list(n)[0][0] == 'p',
                           'C19.write', fr, node, 'all bytes are written', 'not all bytes are written', st)
            st.flags[('all',)] = 1
        self.rep.check(strip_old(ci.args[3])[0] == 'p', 'C19.write', fr, node, 'the bytes go to the stream that was given', 'the bytes go to another stream', st)

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'iter':
            if st.flags.get(('in',)) is None:
                st.flags[('in',)] = lid
            self.bind(st, True)
            st.flags[('w',)] = ()
        elif st.flags.get(('in',)) == lid:
            w = dict(st.flags.get(('w',), ()))
            for k, v in self.vs.items():
                now = poly(st.env.get(k, v))
                if '*' in self.ty(fr, v):
                    self.rep.check(peq(now, padd({POS: 1}, w)), 'C19.write', fr, node, 'the next piece starts where this one ended',
                                   'the next piece does not start where this one ended', st)
                elif now is not None and REST in now:
                    self.rep.check(peq(now, padd({REST: 1}, {x: -y for x, y in w.items()})), 'C19.write', fr, node, 'what was written need not be written again',
                                   'the number of bytes left is not reduced by what was written', st)
            self.bind(st, False)
            st.flags[('w',)] = ()

    def ty(self, fr, v):
        for p in fr.fn.params:
            if p['n'] == v[-1]:
                t = p.get('ty', '')
                return '' if 'FILE' in t or 'iobuf' in t else t
        return ''

    def bind(self, st, same):
        if not same:
            for t in [t for t in st.facts if any(x in (POS, REST) for x in subterms(t))]:
                del st.facts[t]
        for k, v in self.vs.items():
            t = [p.get('ty', '') for p in self.fn.params if p['n'] == v[-1]]
            t = t[0] if t else ''
            if 'FILE' in t or 'iobuf' in t:
                continue
            new = POS if '*' in t else REST if any(x in t for x in ('size_t', 'int', 'long')) else None
            if new is None:
                continue
            now = st.env.get(k, v)
            if same and now != new:
                for t in [t for t in st.facts if any(x == now for x in subterms(t))]:
                    st.facts[subst(t, now, new)] = st.facts.pop(t)
            st.env[k] = new

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        if st.flags.get(('in',)) is None:
            self.rep.check(('all',) in st.flags, 'C19.write', fr, node, 'the bytes are written', 'the bytes are not written', st)
            return
        k = st.flags.get(('last',))
        ok = st.truth(REST) is False or st.val(REST) == 0 or (k is not None and (
            holds(st, '<', k, REST) is False or holds(st, '==', k, REST) is True or k == REST))
        ok = ok or holds(st, '<', ('c', 0), REST) is False
        self.rep.check(ok, 'C19.write', fr, node, 'the loop ends when all bytes are written', 'the loop may end before all bytes are written', st)


@check('C19')
def c19(prog, rep):
    rep.rule('C19.one', 'at any time at most one executor writes directly, and it stays one')
    rep.rule('C19.route', 'text about a command takes the way of the output of the command, once and completely')
    rep.rule('C19.buffer', 'everything that is read from a pipe is added to the buffer of its channel, or written to its stream, once and completely')
    rep.rule('C19.mode', 'the mode is read and changed under its mutex, together with what depends on it; when buffering ends, the buffer is printed first')
    rep.rule('C19.flush', 'the buffers are printed when the process has ended and no output can arrive any more')
    rep.rule('C19.order', 'the parts of the buffers are written in the order of their times, each once and to the stream of its channel')
    rep.rule('C19.piece', 'output of a process is written while nobody else prints')
    rep.rule('C19.write', 'the function that writes to a stream writes all bytes, also if it does so in pieces')
    rep.rule('C19.drain', 'output that is left in the pipe of a process that ended is read')
    chan, w = wiring(prog, rep)
    stream = {}
    for c, ss in w.stream.items():
        n = {stream_name(v) for v in ss}
        stream[c] = list(n)[0] if len(n) == 1 else None
    channels = sorted(stream)
    # one executor
    setters = [f for f in prog.funcs.values() if f.short == 'setBufferedOutput' or f.short.endswith('::setBufferedOutput')]
    users = []
    for f in prog.funcs.values():
        if f in setters:
            continue
        if any(is_call(n) and any(t in setters for t in prog.targets(n.b)) for n in f.cfg.nodes):
            users.append(f)
    if not users:
        raise AnalysisError('nobody decides which executor writes directly')
    run_roots(prog, rep, One(prog, rep), set(tops(prog, users)) | set(prog.fns('TargetExecutor::TargetExecutor')), noinline=('CommandExecutor::setBufferedOutput', 'CommandExecutor::isBufferedOutputSet'),
              events=call_events('CommandExecutor::setBufferedOutput'), heapkeep=(), keepfacts=lambda t: 'isBufferedOutputSet' in repr(t), limit=40)
    ctor = Rule(prog, rep)
    ctor.exit = lambda eng, st, fr, node, kind, val: fr.parent is None and rep.check(
        st.truth(cur(st, fr.this, BO)) is True, 'C19.one', fr, node, 'a new process buffers', 'a new process does not buffer', st)
    run_roots(prog, rep, ctor, ['Process::Process'])
    # text of the executor
    todo = [f for f in prog.funcs.values() if f.short.startswith('CommandExecutor::') and any(is_call(n) and n.b.get('f') in WRITES for n in f.cfg.nodes)]
    done = set()
    level = 0
    while todo and level < 4:
        nxt = []
        for f in todo:
            if f in done:
                continue
            done.add(f)
            g = Guarded(prog, rep)
            run_roots(prog, rep, g, [f], events=call_events(*WRITES), heapkeep=(), limit=30, keepfacts=lambda t: mentions_field(t, BO))
            if g.open:
                cs = [c[0] if isinstance(c, tuple) else c for c in callers(prog, f)]
                cs = [c for c in cs if c is not f]
                if cs and level < 3:
                    nxt.extend(cs)
                else:
                    fr, node, st = g.open[0]
                    rep.check(False, 'C19.route', fr, node, '', 'this is written at once although the process may buffer', st)
        todo = nxt
        level += 1
    for nm, want in (('CommandExecutor::writeToStandardOutput', 'stdout'), ('CommandExecutor::writeToStandardError', 'stderr')):
        if prog.fns(nm):
            r = Route(prog, rep)
            r.want = want
            run_roots(prog, rep, r, [nm], events=call_events(*WRITES), noinline=('Process::writeToStdOutBuffer', 'Process::writeToStdErrBuffer'))
    for nm, want in (('Process::writeToStdOutBuffer', 'stdout'), ('Process::writeToStdErrBuffer', 'stderr')):
        a = Append(prog, rep, stream)
        a.want = want
        run_roots(prog, rep, a, [nm], events=field_events(BUF))
    # functions that write to a stream they are given
    writers = {}
    for f in prog.funcs.values():
        i = [k for k, p in enumerate(f.params) if 'FILE' in p.get('ty', '') or 'iobuf' in p.get('ty', '')]
        if i and any(is_call(n) and n.b.get('f') == 'fwrite' for n in f.cfg.nodes):
            writers[f.name] = i[0]
    for f in [prog.funcs[k] for k in prog.funcs if prog.funcs[k].name in writers]:
        wr = Writer(prog, rep)
        wr.fn = f
        run_roots(prog, rep, wr, [f], steps='all', small=0)
    # from the pipe
    nt = Notified(prog, rep)
    nt.writers = writers
    run_roots(prog, rep, nt, ['OutputChannel::completionPortNotified'], noinline=('OutputChannel::startRead',) + tuple(writers),
              events=either(field_events(BUF, BO), call_events(*WRITES)), limit=40, keepfacts=lambda t: mentions_field(t, BO))
    if not nt.seen:
        raise AnalysisError('output of processes is not taken over')
    # printing
    printers = [f for f in prog.funcs.values() if f.cfg.loops and any(field_events(BUF)(n) for n in f.cfg.nodes)]
    if not printers:
        raise AnalysisError('no function prints what is buffered')
    pr = Print(prog, rep, channels)
    pr.writers = writers
    run_roots(prog, rep, pr, printers, noinline=tuple(writers), unroll=True, events=either(field_events(BUF), call_events(*WRITES)),
              limit=60, heapkeep=None, keepfacts=lambda t: 'TimeStamped' in repr(t) or mentions_field(t, BUF))
    md = Mode(prog, rep)
    md.printers = set(printers)
    run_roots(prog, rep, md, [f for f in setters if f.short == 'Process::setBufferedOutput'], noinline=tuple(f.name for f in printers),
              events=field_events(BO))
    run_roots(prog, rep, Flush(prog, rep, set(printers), channels), ['Process::onProcessFinished', 'Process::~Process'],
              noinline=tuple(f.name for f in printers) + ('IoCompletionPort::unregisterObserver', 'IoCompletionPort::instance'),
              events=either(call_events('IoCompletionPort::unregisterObserver', 'Process::finished'), field_events('Process::m_state')), small=0)
    dr = Drain(prog, rep)
    run_roots(prog, rep, dr, ['Process::onProcessFinished'], events=call_events('CloseHandle', 'ReadFile', 'PeekNamedPipe', 'GetOverlappedResult'),
              noinline=tuple(f.name for f in printers) + ('IoCompletionPort::unregisterObserver', 'IoCompletionPort::instance'), small=0)
    for r, n in (('C19.one', 2), ('C19.route', 2), ('C19.buffer', 4), ('C19.mode', 2), ('C19.flush', 2), ('C19.order', 3), ('C19.write', 1)):
        rep.require(r, n)
