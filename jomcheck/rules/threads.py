"""C20: threads: locks, and what is shared between threads."""
from .common import *
from .registry import check
from .graph import enum_value
from .executor import root_frame

MUTEX = {'QMutex', 'QRecursiveMutex', 'QBasicMutex', 'std::mutex', 'std::recursive_mutex', 'QReadWriteLock'}
GUARDS = {'QMutexLocker', 'std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'QReadLocker', 'QWriteLocker'}
FREE = MUTEX | {'QAtomicInt', 'QAtomicPointer', 'QBasicAtomicInt', 'QSemaphore', 'QWaitCondition'}
PORT = 'IoCompletionPort::'
REGISTER = PORT + 'registerObserver'
OBS = PORT + 'observers'
UNREGISTER = PORT + 'unregisterObserver'


def bare(ty):
    return (ty or '').replace('const ', '').rstrip('*& ').split('<')[0].strip()


# ---------------------------------------------------------------- locks
def lock_id(t):
    """(base, name) of a mutex term."""
    t = strip_old(t)
    while t[0] == 'adr':
        t = strip_old(t[1])
    if t[0] == 'f':
        return t[1], t[2]
    if t[0] == 'g':
        return None, t[1].split('::')[-1]
    return None, show(t)


class LockRule(Rule):
    """Keeps the set of locks held: flags ('held', base, name) -> 1, ('guard', key of the variable) -> (base, name)."""

    def held(self, st):
        return [(k[1], k[2]) for k in st.flags if k[0] == 'held']

    def acquire(self, eng, st, fr, node, l):
        self.acquired(eng, st, fr, node, l)
        st.flags[('held', l[0], l[1])] = 1

    def release(self, eng, st, fr, node, l):
        for k in [k for k in st.flags if k[0] == 'known']:
            if l[1] == NS + PORT + 'mutex' or len(self.held(st)) == 1:
                del st.flags[k]
        if st.flags.pop(('held', l[0], l[1]), None) is None:
            self.notheld(eng, st, fr, node, l)

    def acquired(self, eng, st, fr, node, l):
        pass

    def notheld(self, eng, st, fr, node, l):
        pass

    def lock_call(self, eng, st, fr, node, ci):
        """Returns a replacement for the call, if it is one that concerns locks."""
        if 'QGlobalStatic' in ci.name and ci.short in ('operator()', 'operator->', 'operator*') and ci.rloc is not None:
            return [(st, ('adr', ci.rloc))]
        cls = bare(ci.e.get('cls'))
        if cls in MUTEX and ci.recv is not None:
            l = lock_id(ci.rloc if ci.rloc is not None else ci.recv)
            if ci.short in ('lock', 'lockForRead', 'lockForWrite', 'lockInline'):
                self.acquire(eng, st, fr, node, l)
            elif ci.short in ('unlock', 'unlockInline'):
                self.release(eng, st, fr, node, l)
            elif ci.short in ('tryLock', 'try_lock'):
                s = st.copy()
                self.acquire(eng, s, fr, node, l)
                return [(s, ('c', 1)), (st, ('c', 0))]
            return None
        if cls in GUARDS and ci.rloc is not None and ci.rloc[0] == 'loc':
            k = ('guard', ci.rloc[1], ci.rloc[2])
            l = st.flags.get(k)
            if l is not None:
                if ci.short == 'unlock':
                    self.release(eng, st, fr, node, l)
                elif ci.short in ('relock', 'lock'):
                    self.acquire(eng, st, fr, node, l)
        return None

    def lock_write(self, eng, st, fr, node, loc, val, op):
        v = strip_old(val) if val is not None else ('u',)
        if v[0] == 'obj' and bare(v[1]) in GUARDS and loc[0] == 'loc' and v[2]:
            l = lock_id(v[2][0])
            self.acquire(eng, st, fr, node, l)
            st.flags[('guard', loc[1], loc[2])] = l

    def dtor(self, eng, st, fr, node, var):
        l = st.flags.pop(('guard', fr.id, var.get('id')), None)
        if l is not None and ('held', l[0], l[1]) in st.flags:
            self.release(eng, st, fr, node, l)

    def call(self, eng, st, fr, node, ci):
        return self.lock_call(eng, st, fr, node, ci)

    def write(self, eng, st, fr, node, loc, val, op):
        self.lock_write(eng, st, fr, node, loc, val, op)


PS = 'Process::m_state'


# ---------------------------------------------------------------- which fields a node touches
class Access(object):
    def __init__(self, prog):
        self.p = prog
        self.memo = {}

    def of(self, node):
        r = self.memo.get(id(node))
        if r is None:
            r = []
            op = node.op
            if op == 'assign':
                self.scan(node.a, 'w' if node.a.get('t') != 'ref' else 'r', r)
                self.scan(node.b, 'r', r)
            elif op == 'decl':
                i = node.b
                self.scan(i, 'addr' if isinstance(node.a, dict) and node.a.get('ref') else 'r', r)
            elif op in ('call', 'new', 'feinit', 'throw', 'delete'):
                if op == 'delete':
                    self.scan(node.a, 'r', r)
                else:
                    self.scan(node.b, 'r', r)
            elif op in ('branch', 'retval'):
                self.scan(node.a, 'r', r)
            self.memo[id(node)] = r
        return r

    def scan(self, e, mode, out):
        if not isinstance(e, dict):
            return
        k = e.get('k')
        if k == 'mem':
            ty = bare(e.get('ty'))
            if mode != 'addr' and ty not in FREE and not (mode == 'p'):
                out.append((e, mode == 'w'))
            b = e['b']
            self.scan(b, 'r' if e.get('arrow') else 'addr', out)
        elif k == 'call':
            o = e.get('o')
            if o is not None:
                if e.get('arrow'):
                    self.scan(o, 'r', out)
                elif e.get('own'):
                    self.scan(o, 'addr', out)
                else:
                    self.scan(o, 'r' if e.get('const') or e.get('op') == '()' else 'w', out)
            p = e.get('p', '')
            for i, a in enumerate(e['a']):
                pk = p[i] if i < len(p) and '*' not in p[:i + 1] else 'v'
                self.arg(a, pk, out)
        elif k == 'ctor':
            p = e.get('p', '')
            for i, a in enumerate(e['a']):
                self.arg(a, p[i] if i < len(p) else 'v', out)
        elif k == 'new':
            for x in walk(e.get('i') or {}):
                if x is not e and x.get('k') == 'ctor':
                    self.scan(x, 'r', out)
                    break
        elif k == 'un':
            if e['op'] == '&':
                self.scan(e['e'], 'addr', out)
            elif e['op'] in ('++', '--', 'p++', 'p--'):
                self.scan(e['e'], 'w', out)
            else:
                self.scan(e['e'], 'r', out)
        elif k == 'cast':
            self.scan(e.get('e'), mode, out)
        elif k == 'sub':
            self.scan(e['a'], mode, out)
            self.scan(e['b'], 'r', out)
        elif k == 'bin':
            self.scan(e['a'], 'r', out)
            self.scan(e['b'], 'r', out)
        elif k in ('asg',):
            self.scan(e['a'], 'w', out)
            self.scan(e['b'], 'r', out)
        elif k in ('ilist',):
            for x in e.get('a', []):
                self.scan(x, 'r', out)
        elif k == 'cond':
            for x in ('c', 'a', 'b'):
                self.scan(e.get(x), mode if x != 'c' else 'r', out)

    def arg(self, a, pk, out):
        if not isinstance(a, dict):
            return
        if pk == 'r':
            own = bare(a.get('ty')) in self.p.records
            self.scan(a, 'addr' if own else 'w', out)
        elif a.get('k') == 'un' and a.get('op') == '&':
            own = bare(a['e'].get('ty')) in self.p.records or bare(a['e'].get('ty')) in FREE
            self.scan(a['e'], 'addr' if own else 'w' if pk == 'p' else 'r', out)
        else:
            self.scan(a, 'r', out)


def ctor(fn):
    return bool(fn.cls) and fn.name == fn.cls + '::' + fn.cls.split('::')[-1]


def init_only(prog, acc):
    """Tells whether a field is written by constructors only."""
    w = {e['n'] for f in prog.funcs.values() if not ctor(f) for n in f.cfg.nodes for e, wr in acc.of(n) if wr}
    return lambda n: n not in w


def owner(a, b):
    """Does one object belong to the other?"""
    if a is None or b is None:
        return True
    a, b = strip_old(a), strip_old(b)
    return contains(a, b) or contains(b, a)


class Shared(LockRule):
    """Records which fields are accessed under which locks."""
    VISIT = True

    def __init__(self, prog, rep, acc, thread, want, io, channels, reg=None):
        Rule.__init__(self, prog, rep)
        self.acc = acc
        self.thread = thread       # name of the thread whose function is analysed, or None: the main thread
        self.want = want           # field -> bool
        self.io = io               # fields that belong to an outstanding read
        self.channels = channels   # number of observers of a process
        self.reg = reg
        self.found = {}            # (field, write, locks, quiet) -> (function, file, line, trace)
        self.order = {}            # (lock held, lock acquired) -> site
        self.touched = set()
        self.stopped = enum_value(prog, 'NotRunning')

    def enter(self, eng, st, fr):
        if fr.parent is None:
            if self.thread is None and self.reg is not None and fr.fn.key in self.reg:
                st.flags[('idle',)] = 1      # C20.idle

    def acquired(self, eng, st, fr, node, l):
        for h in self.held(st):
            if h[1] == l[1] and owner(h[0], l[0]) and (h[0] is None or strip_old(h[0]) == strip_old(l[0])):
                self.rep.bad('C20.self', fr.fn.short, node.line, 'lock ' + l[1].split('::')[-1], '%s is locked again while it is held: the thread waits for itself' % l[1].split('::')[-1], st, file=fr.fn.file)
            elif h[1] != l[1]:
                self.order.setdefault((h[1], l[1]), (fr.fn.short, fr.fn.file, node.line))

    def notheld(self, eng, st, fr, node, l):
        self.rep.bad('C20.balance', fr.fn.short, node.line, 'unlock ' + l[1].split('::')[-1], '%s is unlocked although it is not held' % l[1].split('::')[-1], st, file=fr.fn.file)

    def quiet(self, st, fr, base, f=None):
        """The other thread cannot use the object now: both channels are unregistered, or it is being constructed."""
        if self.thread is not None:
            return False
        while fr is not None:
            # the object is being constructed
            if ctor(fr.fn) and (base is not None and contains(strip_old(base), strip_old(fr.this)) or f is not None and f.rsplit('::', 1)[0] == fr.fn.cls):
                return True
            fr = fr.parent
        if ('idle',) in st.flags:
            return True
        u = [k[1] for k in st.flags if k[0] == 'unreg']
        return len(u) >= self.channels

    def armed(self, st, base):
        return any(k[0] == 'armed' and owner(k[1], base) for k in st.flags)

    def visit(self, eng, st, fr, n):
        for e, w in self.acc.of(n):
            f = e['n']
            if not self.want(f):
                continue
            loc = eng.lv(fr, st, e, n)
            base = loc[1] if loc is not None and loc[0] == 'f' else None
            self.access(st, fr, n, f, base, w)

    def access(self, st, fr, n, f, base, w):
        q = self.quiet(st, fr, base, f)
        if f in self.io:
            self.touched.add(f)
            # between the start of a read and the notification of its end, the system writes to it
            ok = not self.armed(st, base)
            self.rep.check(ok, 'C20.pending', fr, n, 'not used while a read is outstanding: ' + f.split('::')[-1],
                           '%s is used although a read operation into it may be outstanding' % f.split('::')[-1], st)
            if self.thread is None and not q:
                # before the first read operation, nobody is notified
                self.rep.check(self.starting(st), 'C20.pending', fr, n, 'used only before the first read: ' + f.split('::')[-1],
                               '%s is used although the other thread may be using it' % f.split('::')[-1], st)
            return
        locks = frozenset(h[1] for h in self.held(st) if owner(h[0], base))
        b = strip_old(base) if base is not None else None
        while b is not None and b[0] in ('elem', 'old', 'adr'):
            b = b[1]
        bf = b[2] if b is not None and b[0] == 'f' else None
        self.found.setdefault((f, w, locks, q, bf), (fr.fn.short, fr.fn.file, n.line, st.copy()))

    def branch(self, eng, st, fr, node, t, truth):
        if self.thread is None:
            return
        x, v = truths(t, truth)
        for y in subterms(x):
            if callname(y) in ('contains', 'indexOf', 'count', 'find', 'constFind') and is_field(y[2], OBS) and y[3]:
                sense = v if callname(y) in ('contains', 'count') else None
                if sense and self.held(st):
                    st.flags[('known', strip_old(y[3][0]))] = 1

    def starting(self, st):
        return ('starting',) in st.flags

    def call(self, eng, st, fr, node, ci):
        if ci.has(UNREGISTER) and ci.args:
            st.flags[('unreg', strip_old(ci.args[0]))] = 1
        elif ci.has(REGISTER) and ci.args:
            st.flags.pop(('unreg', strip_old(ci.args[0])), None)
            st.flags.pop(('idle',), None)
            for k in [k for k in st.flags if k[0] == 'unreg']:
                if owner(k[1], ci.args[0]):
                    st.flags.pop(k)
            st.flags[('starting',)] = 1
        elif ci.short in ('ReadFile', 'ReadFileEx'):
            for a in ci.args[1:]:
                for x in subterms(strip_old(a)):
                    if x[0] == 'f' and x[2] in self.io:
                        st.flags[('armed', x[1])] = 1
        elif ci.name == 'delete' and self.thread is None and ci.recv is not None:
            t = strip_old(ci.recv)
            if is_field(t, 'Process::d') or 'ProcessPrivate' in str(ci.e.get('c')):
                self.rep.check(self.quiet(st, fr, None), 'C20.delete', fr, node, 'not deleted while the other thread may use it',
                               'the data of the process is deleted while the other thread may use it', st)
        if self.thread is not None and ci.virt and ci.recv is not None and any(self.p.derives(t.cls, NS + 'IoCompletionPortObserver') for t in ci.targets if t.cls) and \
                fr.parent is None:
            o = strip_old(ci.recv)
            self.rep.check(('known', o) in st.flags, 'C20.guard', fr, node, 'only registered observers are notified',
                           'an observer is notified without having looked up, under the lock, that it is still registered', st)
        if ci.signal:
            if self.held(st):
                self.rep.bad('C20.callout', fr.fn.short, node.line, ci.short, 'the signal %s is emitted while locks are held: what is connected to it may need them' % ci.short, st, file=fr.fn.file)
            else:
                self.rep.ok('C20.callout', '%s: %s' % (fr.fn.short, ci.short))
            if self.thread is not None:
                return [(st, ('c', 0))]
            return None
        if ci.short == 'invokeMethod' and self.thread is not None:
            direct = 'DirectConnection' in repr(ci.e) or 'BlockingQueuedConnection' in repr(ci.e)
            kind = [a for a in ci.args if strip_old(a)[0] == 'c']
            v = strip_old(kind[0])[1] if kind else None
            self.rep.check(not direct and v == 2, 'C20.queued', fr, node, 'the main thread is called through its event loop: %s' % ci.short,
                           'a function of the main thread is called directly from the %s thread' % self.thread, st)
            return [(st, ('c', 1))]
        return self.lock_call(eng, st, fr, node, ci)

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'back' and fr.parent is None and self.thread is not None:
            self.balance(st, fr, node, 'the end of an iteration')
            for k in [k for k in st.flags if k[0] in ('armed', 'held', 'guard')]:
                del st.flags[k]

    def write(self, eng, st, fr, node, loc, val, op):
        self.lock_write(eng, st, fr, node, loc, val, op)
        if is_field(loc, PS) and self.thread is None and st.val(val) == self.stopped:
            self.rep.check(self.quiet(st, fr, loc[1]), 'C20.idle', fr, node, 'nobody is notified about a process that does not run',
                           'the process is regarded as not running although the other thread may still be notified about its output', st)

    def balance(self, st, fr, node, what):
        h = self.held(st)
        self.rep.check(not h, 'C20.balance', fr, node, 'no lock is held at ' + what, '%s is still held at %s' % (', '.join(x[1].split('::')[-1] for x in h), what), st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None:
            self.balance(st, fr, node, 'the end of ' + fr.fn.short)


class Registry(Rule):
    def call(self, eng, st, fr, node, ci):
        if ci.recv is not None and is_container(ci, OBS) and ci.args:
            p = ('p', fr.fn.key, fr.fn.params[0]['n']) if fr.parent is None and fr.fn.params else None
            r = root_frame(fr).fn
            p = ('p', r.key, r.params[0]['n']) if r.params else None
            if strip_old(ci.args[0]) == p and ci.short in ('remove', 'insert', 'erase', 'operator<<', 'operator+=', 'operator-='):
                st.flags[('did', ci.short in ('remove', 'erase', 'operator-='))] = 1

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and fr.fn.name == NS + UNREGISTER:
            self.rep.check(('did', True) in st.flags, 'C20.unregister', fr, node, 'the observer is no longer registered',
                           'an observer stays registered after it was unregistered', st)


def thread_roots(prog):
    """[(name, function)]: what runs in another thread than the main thread."""
    r = []
    for f in prog.funcs.values():
        if f.name.endswith('::run') and f.cls and (prog.derives(f.cls, 'QThread') or prog.derives(f.cls, 'QRunnable')):
            r.append((f.cls.split('::')[-1], f))
    moved = set()
    for f in prog.funcs.values():
        for c in prog.call_exprs(f):
            if c.get('k') == 'call' and c.get('f', '').endswith('moveToThread'):
                o = c.get('o')
                cl = prog.expr_class(o, f) if o is not None else None
                if cl:
                    moved.add(cl)
    for kind, sn, sig, slotname, slots, c, f in prog.connections:
        for s in slots:
            if s.cls in moved and ('helper', s) not in r:
                r.append(('helper', s))
    return r, moved


@check('C20')
def c20(prog, rep):
    rep.rule('C20.race', 'a field used by two threads, and written by one, is used with a common lock, or while the other thread cannot use it')
    rep.rule('C20.pending', 'what an outstanding read operation writes to is not touched')
    rep.rule('C20.balance', 'every lock that is taken is released on every path, and only then')
    rep.rule('C20.self', 'no lock is taken twice')
    rep.rule('C20.order', 'locks are taken in one order')
    rep.rule('C20.callout', 'no signal is emitted while a lock is held')
    rep.rule('C20.queued', 'other threads call functions of the main thread only through its event loop')
    rep.rule('C20.delete', 'data shared with the other thread is deleted only when that cannot use it')
    rep.rule('C20.idle', 'when a process is regarded as not running, its channels are not registered')
    rep.rule('C20.unregister', 'unregistering removes the observer, so that it is not notified any more')
    rep.rule('C20.guard', 'an observer is notified only if it is registered, and this is looked up under the lock that guards the registration')
    acc = Access(prog)
    _ptr.clear()
    _ptr.update({n: f['ty'].rstrip().endswith('*') for n, f in prog.fieldinfo.items()})
    pts = points_to(prog)
    io = set()
    for f in prog.funcs.values():
        for c in prog.call_exprs(f):
            if c.get('k') == 'call' and c.get('f') in ('ReadFile', 'ReadFileEx'):
                for a in c['a'][1:]:
                    for x in walk(a):
                        if x.get('k') == 'mem' and not x.get('ty', '').endswith('*'):
                            io.add(x['n'])
    if not io:
        raise AnalysisError('no read operation found')
    ro = init_only(prog, acc)
    nchan = len([f for r in prog.records.values() for f in r['fields'] if bare(f['ty']) in prog.records and
                 prog.derives(bare(f['ty']), NS + 'IoCompletionPortObserver') and not f['ty'].rstrip().endswith('*')])
    roots, moved = thread_roots(prog)
    if not any(n == 'IoCompletionPort' for n, f in roots):
        raise AnalysisError('the I/O thread was not found')
    order = {}
    rf = set(prog.fns(REGISTER))
    reg = {g.key for g in prog.funcs.values() if rf & prog.closure([g], signals=False) and g not in rf}
    for name, f in roots:
        want = lambda n: not ro(n)
        mon = Shared(prog, rep, acc, name, want, io, nchan)
        clo = prog.closure([f], signals=False)
        # virtual calls from the thread
        run_roots(prog, rep, mon, [f], events=lambda n: n.op in ('call', 'branch', 'assign', 'retval', 'decl', 'new'), limit=20, heapkeep=(), keepfacts=lambda t: False)
        order.update(mon.order)
        fields = {k[0] for k in mon.found} | mon.touched
        # every function of the main thread that may touch these fields and is called from elsewhere
        inthread = {g.key for g in clo}
        users = set()
        for g in prog.funcs.values():
            if any(e['n'] in fields for n in g.cfg.nodes for e, w in acc.of(n)):
                users.add(g)
        classes = {g.cls for g in users} | {f.cls}
        todo = list(users)
        closure = set(users)
        while todo:
            g = todo.pop()
            for h, n, k in [x for x in callers(prog, g)]:
                if h.cls in classes or h.cls is None and h.file == g.file:
                    if h not in closure:
                        closure.add(h)
                        todo.append(h)
        entries = {s for kind, sn, sig, slotname, slots, c, h in prog.connections for s in slots}
        mains = []
        for g in closure:
            if g is f:
                continue
            cs = callers(prog, g)
            outside = [h for h, n, k in cs if h not in closure]
            dt = g.cls and '::~' in g.name
            if outside or g in entries or dt or not cs and g.cls in classes or g.name in (NS + REGISTER, NS + UNREGISTER):
                # reached from the thread only?
                if not outside and g not in entries and not dt and g.key in inthread:
                    continue
                mains.append(g)
        maccs = {}
        for g in sorted(mains, key=lambda g: g.key):
            m = Shared(prog, rep, acc, None, lambda n: n in fields, io, nchan, reg)
            ev = lambda n: any(e['n'] in fields for e, w in acc.of(n)) or call_events(REGISTER, UNREGISTER)(n) or n.op == 'call' and bare(n.b.get('cls')) in MUTEX
            run_roots(prog, rep, m, [g], events=ev, noinline=(REGISTER, UNREGISTER) if not g.name.startswith(NS + PORT) else (), heapkeep=(), keepfacts=lambda t: False, limit=20)
            order.update(m.order)
            for k, v in m.found.items():
                maccs.setdefault(k, v)
        for (fa, wa, la, qa, oa), sa in sorted(mon.found.items(), key=repr):
            for (fb, wb, lb, qb, ob), sb in sorted(maccs.items(), key=repr):
                if fa != fb or not (wa or wb) or apart(pts, oa, ob):
                    continue
                s = fa.split('::', 1)[-1]
                if la & lb or qb:
                    rep.ok('C20.race', '%s: %s' % (sb[0], s))
                else:
                    rep.bad('C20.race', sb[0], sb[2], s, '%s is %s here with %s, and %s in %s (%s thread) with %s: no common lock' % (
                        s, 'written' if wb else 'read', locknames(lb), 'written' if wa else 'read', sa[0], name, locknames(la)), sb[3], file=sb[1])
    run_roots(prog, rep, Registry(prog, rep), [UNREGISTER], events=field_events(OBS))
    rep.require('C20.guard', 1)
    # the order of locks
    edges = {}
    for (a, b), site in order.items():
        edges.setdefault(a, set()).add(b)
        rep.ok('C20.order', '%s before %s' % (a.split('::')[-1], b.split('::')[-1]))
    for (a, b), site in sorted(order.items()):
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo.extend(edges.get(x, ()))
        if a in seen:
            rep.bad('C20.order', site[0], site[2], '%s before %s' % (a.split('::')[-1], b.split('::')[-1]),
                    '%s is taken while %s is held, elsewhere it is the other way round: two threads can wait for each other' % (b.split('::')[-1], a.split('::')[-1]), file=site[1])
    for kind, sn, sig, slotname, slots, c, f in prog.connections:
        if kind == 'connect' and any(s.cls in moved for s in slots):
            if 'DirectConnection' in repr(c):
                rep.bad('C20.queued', f.short, c.get('l', 0), 'connection', 'a slot of an object of another thread is called directly', file=f.file)
            else:
                rep.ok('C20.queued', f.short + ': connection')
    rep.require('C20.race', 3)
    rep.require('C20.balance', 3)
    rep.require('C20.queued', 1)


def points_to(prog):
    """{pointer field: set of value members whose address it gets, or None if it may get anything else}."""
    pts = {}
    for f in prog.funcs.values():
        for x in walk([f.d['body']] + [{'k': 'asg', 'a': {'k': 'mem', 'n': i['n'], 'ty': '*'}, 'b': i.get('e')} for i in f.d.get('inits', []) if ptr(i.get('n'))]):
            if x.get('k') != 'asg' or x['a'].get('k') != 'mem' or not x['a'].get('ty', '').endswith('*'):
                continue
            b = x['b']
            while isinstance(b, dict) and b.get('k') == 'cast':
                b = b['e']
            n = x['a']['n']
            if isinstance(b, dict) and b.get('k') == 'un' and b.get('op') == '&' and b['e'].get('k') == 'mem':
                if pts.setdefault(n, set()) is not None:
                    pts[n].add(b['e']['n'])
            elif not (isinstance(b, dict) and b.get('k') == 'int'):
                pts[n] = None
    return pts


def apart(pts, a, b):
    """Are the objects certainly different ones? a, b: the field that refers to them, or None."""
    if a is None or b is None or a == b:
        return False
    pa, pb = (pts.get(x) if x in pts else {x} if not ptr(x) else None for x in (a, b))
    return pa is not None and pb is not None and not pa & pb


_ptr = {}


def ptr(n):
    return _ptr.get(n, False)


def locknames(l):
    return 'the lock ' + ', '.join(sorted(x.split('::')[-1] for x in l)) if l else 'no lock'


_callers = {}


def callers(prog, g):
    if _callers.get('__prog') is not prog:
        _callers.clear()
        _callers['__prog'] = prog
        for f in prog.funcs.values():
            for n in f.cfg.nodes:
                if n.op in ('call', 'new'):
                    for e in (n.b, n.b.get('i') if isinstance(n.b.get('i'), dict) else None):
                        if isinstance(e, dict):
                            for t in prog.targets(e):
                                _callers.setdefault(t, []).append((f, n, t))
    return _callers.get(g, [])
