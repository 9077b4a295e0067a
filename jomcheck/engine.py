"""Path-sensitive dataflow over the control flow graphs: symbolic terms, value-set facts, rule typestate.

No solver and no execution: conditions refine value sets (intervals with
holes) of terms; a path is discarded only if a value set becomes empty.
"""
from .extract import AnalysisError
from .prog import walk, NS

# ---------------------------------------------------------------- value sets
TOP = (None, None, ())
TRUE = (1, 1, ())
FALSE = (0, 0, ())
NONZERO = (None, None, (0,))


def vs_const(v):
    return (v, v, ())


def vs_meet(a, b):
    lo = a[0] if b[0] is None else (b[0] if a[0] is None else max(a[0], b[0]))
    hi = a[1] if b[1] is None else (b[1] if a[1] is None else min(a[1], b[1]))
    if a[2] == b[2]:
        ex = a[2]
    else:
        ex = set(a[2]) | set(b[2])
    return vs_norm(lo, hi, ex)


def vs_norm(lo, hi, ex):
    if ex:
        ex = set(ex)
        while lo is not None and lo in ex and (hi is None or lo <= hi):
            lo += 1
        while hi is not None and hi in ex and (lo is None or lo <= hi):
            hi -= 1
        ex = tuple(sorted(x for x in ex if (lo is None or x > lo) and (hi is None or x < hi)))
    else:
        ex = ()
    if lo is not None and hi is not None and lo > hi:
        return None
    return (lo, hi, ex)


def vs_join(a, b):
    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    ex = tuple(x for x in set(a[2]) | set(b[2]) if not vs_has(a, x) and not vs_has(b, x))
    return vs_norm(lo, hi, ex)


def vs_has(a, v):
    return not ((a[0] is not None and v < a[0]) or (a[1] is not None and v > a[1]) or v in a[2])


# ---------------------------------------------------------------- terms
_str_ids = {}


def str_id(s):
    if s not in _str_ids:
        _str_ids[s] = 10 ** 9 + len(_str_ids)
    return _str_ids[s]


_atoms = {}
OWN_READS = {}      # own const function key -> frozenset of fields it reads


def atoms(t):
    """Names a term depends on: ('F', field), ('G', global), and its sites."""
    r = _atoms.get(t)
    if r is not None:
        return r
    s = set()
    if isinstance(t, tuple):
        if t and t[0] == 'f':
            s.add(('F', t[2]))
            s |= atoms(t[1])
        elif t and t[0] == 'g':
            s.add(('F', 'g:' + t[1]))
        elif t and t[0] in SITE:
            s.add(t)
            for x in t[1:]:
                if isinstance(x, tuple):
                    s |= atoms(x)
        else:
            if t and t[0] == 'm' and t[1] in OWN_READS:
                s.update(('F', n) for n in OWN_READS[t[1]])
            for x in t:
                if isinstance(x, tuple):
                    s |= atoms(x)
    r = frozenset(s)
    _atoms[t] = r
    return r


NULLABLE = {'p', 'r', 'f', 'g', 'm', 'elem', 'j', 'u'}
SITE = {'r', 'new', 'obj', 'elem', 'loc', 'j', 'p', 'u'}
# an element's site is the pair container/position


def contains(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple) and contains(x, sub):
                return True
    return False


def replace(t, fn):
    """Replaces subterms: fn(sub) returns a replacement or None."""
    r = fn(t)
    if r is not None:
        return r
    if isinstance(t, tuple):
        n = tuple(replace(x, fn) if isinstance(x, tuple) else x for x in t)
        return n if n != t else t
    return t


def strip_old(t):
    """The term with the marks of overwritten values removed (its origin)."""
    if isinstance(t, tuple):
        if t and t[0] == 'old':
            return strip_old(t[1])
        return tuple(strip_old(x) if isinstance(x, tuple) else x for x in t)
    return t


def const(v):
    return ('c', int(v))


def is_const(t):
    return t[0] == 'c'


def show(t, depth=0):
    """Readable form of a term."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'c':
        return str(t[1])
    if k == 's':
        return '"%s"' % t[1]
    if k == 'this':
        return 'this'
    if k == 'f':
        n = t[2].split('::')[-1]
        b = show(t[1])
        return n if b == 'this' else b + '.' + n
    if k == 'g':
        return t[1].split('::')[-1]
    if k == 'p':
        return t[2]
    if k == 'm':
        n = t[1].split('(')[0].split('::')[-1]
        a = ', '.join(show(x) for x in t[3])
        return '%s%s(%s)' % (show(t[2]) + '.' if t[2] else '', n, a)
    if k == 'op':
        if len(t) == 3:
            return '%s%s' % (t[1], show(t[2]))
        return '%s %s %s' % (show(t[2]), t[1], show(t[3]))
    if k == 'size':
        return show(t[1]) + '.size'
    if k == 'elem':
        return 'element of ' + show(t[1])
    if k == 'obj':
        return '%s(%s)' % (t[1].split('::')[-1], ', '.join(show(x) for x in t[2]))
    if k == 'new':
        return 'new ' + str(t[1]).split('::')[-1]
    if k == 'old':
        return 'former ' + show(t[1])
    if k == 'r':
        return t[3] if len(t) > 3 else '?'
    if k == 'loc':
        return t[3] if len(t) > 3 else 'local'
    if k == 'adr':
        return '&' + show(t[1])
    if k == 'dflt':
        return '%s()' % t[1]
    return str(t)


CMP = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
SWAP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}


def cmp_term(op, a, b):
    """Canonical comparison: (term, negated)."""
    if op == '!=':
        return ('op', '==') + tuple(sorted((a, b), key=repr)), True
    if op == '==':
        return ('op', '==') + tuple(sorted((a, b), key=repr)), False
    if op == '<':
        return ('op', '<', a, b), False
    if op == '>':
        return ('op', '<', b, a), False
    if op == '<=':
        return ('op', '<', b, a), True
    return ('op', '<', a, b), True


class State(object):
    __slots__ = ('env', 'heap', 'facts', 'flags', 'trace')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = {}
        self.flags = {}
        self.trace = None

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.flags = dict(self.flags)
        s.trace = self.trace
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()), frozenset(self.facts.items()),
                frozenset(self.flags.items()))

    # --- facts
    def vs(self, t):
        k = t[0]
        if k == 'c':
            return vs_const(t[1])
        if k == 's':
            return vs_const(str_id(t[1]))
        if k == 'op':
            tr = self._optruth(t)
            if tr is not None:
                return TRUE if tr else FALSE
            f = self.facts.get(t)
            return f if f is not None else (0, 1, ()) if t[1] in ('==', '<', '!', '!=', '>', '<=', '>=') else TOP
        if k == 'size':
            f = self.facts.get(t)
            if t[1][0] == 'dflt':
                return FALSE
            if t[1][0] == 's':
                return vs_const(len(t[1][1]))
            return f if f is not None else (0, None, ())
        if k in ('new', 'obj', 'adr', 'loc', 'lam', 'fn'):
            return NONZERO
        if k == 'this':
            return NONZERO
        f = self.facts.get(t)
        return f if f is not None else TOP

    def val(self, t):
        v = self.vs(t)
        if v[0] is not None and v[0] == v[1]:
            return v[0]
        return None

    def truth(self, t):
        """True, False or None (unknown)."""
        v = self.vs(t)
        if v == FALSE:
            return False
        if not vs_has(v, 0):
            return True
        return None

    def _optruth(self, t):
        op = t[1]
        if op == '!' and len(t) == 3:
            x = self.truth(t[2])
            return None if x is None else not x
        if len(t) != 4:
            return None
        if op in CMP:
            c, neg = cmp_term(op, t[2], t[3])
            r = self._cmp(c)
            if r is None:
                f = self.facts.get(c)
                if f == TRUE:
                    r = True
                elif f == FALSE:
                    r = False
            if r is None:
                return None
            return r != neg
        return None

    def _cmp(self, c):
        op, a, b = c[1], c[2], c[3]
        if a == b:
            return op == '=='
        va, vb = self.vs(a), self.vs(b)
        if op == '==':
            if va[0] is not None and va[0] == va[1] and va == vb:
                return True
            if vs_meet(va, vb) is None:
                return False
        else:
            if va[1] is not None and vb[0] is not None and va[1] < vb[0]:
                return True
            if va[0] is not None and vb[1] is not None and va[0] >= vb[1]:
                return False
        return None

    def set_vs(self, t, vs):
        """Intersects; False if infeasible."""
        cur = self.vs(t)
        n = vs_meet(cur, vs)
        if n is None:
            return False
        if t[0] in ('c', 's'):
            return True
        if n != TOP:
            self.facts[t] = n
        return True

    def assume(self, t, truth):
        k = t[0]
        if k == 'c':
            return (t[1] != 0) == truth
        if k == 'op' and t[1] == '!' and len(t) == 3:
            return self.assume(t[2], not truth)
        if k == 'op' and len(t) == 4 and t[1] in CMP:
            c, neg = cmp_term(t[1], t[2], t[3])
            want = truth != neg
            r = self._cmp(c)
            if r is not None:
                return r == want
            f = self.facts.get(c)
            if f is not None and not vs_has(f, 1 if want else 0):
                return False
            a, b = c[2], c[3]
            for x, y, left in ((a, b, True), (b, a, False)):
                v = self.val(y)
                if v is None:
                    continue
                if c[1] == '==':
                    # a truth value compared with a constant
                    if x[0] == 'op' and x[1] in CMP and v in (0, 1):
                        return self.assume(x, (v == 1) == want)
                    if want:
                        return self.set_vs(x, vs_const(v))
                    return self.set_vs(x, (None, None, (v,)))
                if left:      # x < v
                    return self.set_vs(x, (None, v - 1, ()) if want else (v, None, ()))
                # v < x
                return self.set_vs(x, (v + 1, None, ()) if want else (None, v, ()))
            self.facts[c] = TRUE if want else FALSE
            # bounds
            if c[1] == '<':
                va, vb = self.vs(a), self.vs(b)
                if want:
                    if va[0] is not None and not self.set_vs(b, (va[0] + 1, None, ())):
                        return False
                    if vb[1] is not None and not self.set_vs(a, (None, vb[1] - 1, ())):
                        return False
                else:
                    if vb[0] is not None and not self.set_vs(a, (vb[0], None, ())):
                        return False
                    if va[1] is not None and not self.set_vs(b, (None, va[1], ())):
                        return False
            elif want:
                m = vs_meet(self.vs(a), self.vs(b))
                if m is None:
                    return False
                if m != TOP:
                    if not self.set_vs(a, m) or not self.set_vs(b, m):
                        return False
            return True
        return self.set_vs(t, NONZERO if truth else FALSE)

    # --- substitution
    def subst(self, pred, keepheap=None):
        """Renames every subterm for which pred(term) holds to ('old', term)."""
        def has(t):
            return any(pred_atom(x) for x in atoms(t))
        pred_atom = pred.atom

        def fn(t):
            if t and t[0] == 'old':
                return t      # already a former value
            if pred(t):
                return ('old', t)
            return None
        for m in (self.env, self.flags):
            for k, v in list(m.items()):
                if isinstance(v, tuple) and has(v):
                    m[k] = replace(v, fn)
        if self.facts:
            # former values of earlier generations are forgotten
            for k in [k for k in self.facts if has(k)]:
                v = self.facts.pop(k)
                n = replace(k, fn)
                if n not in self.facts or n == k:
                    self.facts[n] = v
                else:
                    self.facts[n] = vs_join(self.facts[n], v)
        for k in list(self.heap):
            v = self.heap[k]
            if has(k):
                if keepheap is not None and k == keepheap:
                    pass
                else:
                    n = replace(k, fn)
                    if n != k:
                        del self.heap[k]
                        if n[0] != 'old':
                            self.heap[n] = v
                        continue
            if isinstance(v, tuple) and has(v):
                self.heap[k] = replace(v, fn)


class FieldPred(object):
    """Matches current-value terms of fields and pure calls that read them."""

    def __init__(self, names, base=None, st=None):
        self.names = names
        self.base = base
        self.st = st

    def atom(self, a):
        return a[0] == 'F' and a[1] in self.names

    def __call__(self, t):
        if not t:
            return False
        if t[0] == 'f' and t[2] in self.names:
            return self.base is None or not distinct(t[1], self.base, self.st)
        if t[0] == 'g' and 'g:' + t[1] in self.names:
            return True
        if t[0] == 'm' and t[1] in OWN_READS and OWN_READS[t[1]] & self.names:
            return True
        return False


class TermPred(object):
    def __init__(self, t):
        self.t = t

    def atom(self, a):
        return a == self.t

    def __call__(self, t):
        return t == self.t


def distinct(a, b, st=None):
    """Do the two base terms certainly name different objects?"""
    if a == b:
        return False
    ID = ('new', 'obj', 'loc')
    if a[0] in ID and b[0] in ID:
        return True
    if a[0] in ID and b[0] in ('this', 'p', 'g') or b[0] in ID and a[0] in ('this', 'p', 'g'):
        return True
    if a[0] == 'g' and b[0] == 'g':
        return True
    # different member objects / different classes
    if a[0] == 'f' and b[0] == 'f' and a[2] != b[2] and a[1] == b[1] and (a[2] in VALUE_FIELDS or b[2] in VALUE_FIELDS):
        return True
    if st is not None and st.truth(cmp_term('==', a, b)[0]) is False:
        return True
    return False


VALUE_FIELDS = set()


class Frame(object):
    __slots__ = ('id', 'fn', 'this', 'parent', 'line', 'depth', 'node')

    def __init__(self, fid, fn, this, parent, line, node=None):
        self.id = fid
        self.node = node
        self.fn = fn
        self.this = this
        self.parent = parent
        self.line = line
        self.depth = parent.depth + 1 if parent else 0

    def stack(self):
        r = []
        f = self
        while f:
            r.append(f.fn)
            f = f.parent
        return r


class Monitor(object):
    """Base of the rules: gets the events of every path."""

    VISIT = False

    def visit(self, eng, st, fr, n):
        """Before every node, if VISIT is set."""
        pass

    def enter(self, eng, st, fr):
        pass

    def call(self, eng, st, fr, node, c):
        """Before a call. c: CallInfo. May return a list of (state, result) to replace the call."""
        return None

    def after(self, eng, st, fr, node, c, res):
        pass

    def write(self, eng, st, fr, node, loc, val, op):
        pass

    def branch(self, eng, st, fr, node, term, truth):
        pass

    def loop(self, eng, st, fr, node, what, lid):
        """what: 'iter' (an iteration starts), 'back' (it ended normally), 'exit' is not reported."""
        pass

    def ret(self, eng, st, fr, node, val):
        pass

    def exit(self, eng, st, fr, node, kind, val):
        """Function left: kind 'ret' or 'throw'."""
        pass

    def caught(self, eng, st, fr, node):
        """A handler is entered."""
        pass

    def noreturn(self, eng, st, fr, node, c):
        pass

    def dtor(self, eng, st, fr, node, var):
        pass

    def elem(self, eng, st, fr, node, elem):
        """An element of a container is looked at: ('elem', container, index)."""
        pass

    def inline(self, eng, fn):
        return None


class CallInfo(object):
    __slots__ = ('e', 'name', 'short', 'key', 'recv', 'args', 'rloc', 'alocs', 'targets', 'op', 'signal', 'line',
                 'ctor', 'isnew', 'virt')

    def has(self, name):
        return self.name == name or self.name == NS + name


TRANSPARENT = {'QString', 'QByteArray', 'QLatin1String', 'QLatin1Char', 'QChar', 'QStringRef', 'QStringView',
               'std::string', 'QFlags', 'QPointer', 'QVariant', 'QCharRef', 'QByteRef'}
TRANSPARENT_CALLS = {'qAsConst', 'std::move', 'std::as_const', 'QString::fromLatin1', 'QString::fromLocal8Bit',
                     'std::forward', 'QChar::fromLatin1', 'QLatin1Char::operator QChar', 'QLatin1String::latin1',
                     'QLatin1String::data', 'QString::fromUtf8', 'std::__addressof', 'std::addressof',
                     'QStringBuilder::operator QString', 'qobject_cast', 'QCharRef::operator QChar',
                     'QChar::unicode', 'QChar::toLatin1', 'QLatin1Char::toLatin1', 'QLatin1Char::unicode',
                     'QString::unicode', 'QString::constData', 'QString::data', 'QByteArray::constData', 'QString::utf16',
                     'QAtomicInt::load', 'QString::toString', 'QStringRef::toString', 'qAbs'}
SIZES = {'size', 'count', 'length'}
ENVLIKE = ('QFile::', 'QFileInfo::', 'QDir::', 'QProcess::', 'QTime::', 'QDateTime::', 'QElapsedTimer::', 'QSystemSemaphore::',
           'QSharedMemory::', 'QThread::', 'QCoreApplication::', 'QTemporaryFile::', 'QIODevice::', 'QTextStream::',
           'QSemaphore::', 'QMutex', 'QDirIterator::', 'QRegExp::', 'QStack::', 'QFileDevice::')


class Engine(object):
    LIMIT = 400

    def __init__(self, prog, monitor, events=None, inline=(), noinline=(), roots=(), depth=12, limit=None,
                 small=14, keepfacts=None, heapkeep=None, steps=False, unroll=False):
        """events(node) marks CFG nodes of interest: functions that may reach one are inlined."""
        self.p = prog
        self.mon = monitor
        self.depth = depth
        self.limit = limit or self.LIMIT
        self.small = small
        self.noinline = set()
        for n in noinline:
            for f in prog.fns(n):
                self.noinline.add(f.key)
        self.interest = set()
        for n in inline:
            for f in prog.fns(n):
                self.interest.add(f.key)
        if events:
            seeds = set()
            for f in prog.funcs.values():
                for n in f.cfg.nodes:
                    if events(n):
                        seeds.add(f.key)
                        break
            self.interest |= self.up_closure(seeds)
        self.keepfacts = keepfacts
        self.unroll = unroll     # loops over a list of known elements go through them one by one
        self.steps = steps       # increments outside loops stay symbolic sums
        self.heapkeep = heapkeep if heapkeep is None else {n if n.startswith(NS) else NS + n for n in heapkeep}
        self.frames = {}
        self.stats = {'functions': set(), 'paths': 0, 'nodes': 0, 'calls': 0, 'merges': 0}
        self.memo = {}
        prog._effects()
        if not OWN_READS or OWN_READS.get('__prog') is not prog:
            OWN_READS.clear()
            _atoms.clear()
            for f in prog.funcs.values():
                OWN_READS[f.key] = frozenset(prog.reads(f))
            OWN_READS['__prog'] = prog
            VALUE_FIELDS.clear()
            for n, fi in prog.fieldinfo.items():
                if not fi['ty'].rstrip().endswith('*') and fi.get('t') == 'r':
                    VALUE_FIELDS.add(n)

    def up_closure(self, seeds):
        p = self.p
        p._effects()
        rev = {}
        for k, cs in p._graph.items():
            for c in p.callees(p.funcs[k], signals=False):
                rev.setdefault(c, set()).add(k)
        seen = set()
        st = list(seeds)
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            st.extend(rev.get(k, ()))
        return seen

    # ------------------------------------------------------------ entry
    def run(self, fn, setup=None):
        """Explores fn from an unconstrained caller."""
        st = State()
        fr = self.frame(None, 0, fn, ('this',))
        for p in fn.params:
            st.env[('v', fr.id, p['id'])] = ('p', fn.key, p['n'] or '_%s' % p['id'])
        if setup:
            setup(st, fr)
        return self.exec(fr, [st])

    def frame(self, parent, nid, fn, this, line=None):
        k = (parent.id if parent else 0, nid, fn.key)
        if k not in self.frames:
            self.frames[k] = len(self.frames) + 1
        return Frame(self.frames[k], fn, this, parent, line)

    def note(self, st, fr, line, text):
        st.trace = (st.trace, fr.fn.short, fr.fn.file, line, text)

    # ------------------------------------------------------------ execution of one function
    def exec(self, fr, states):
        fn = fr.fn
        cfg = fn.cfg
        self.stats['functions'].add(fn.short)
        seen = {}
        exits = []
        exitkeys = set()
        work = []

        def push(nid, st):
            live = cfg.nodes[nid].live
            self.prune(st, fr, live)
            k = st.key()
            s = seen.setdefault(nid, {})
            if k in s:
                return
            if len(s) >= self.limit:
                st = self.merge(s, st, fr, nid)
                if st is None:
                    return
                k = st.key()
                if k in s:
                    return
            s[k] = st
            work.append((nid, st.copy()))

        def leave(kind, st, val):
            self.mon.exit(self, st, fr, None, kind, val)
            if fr.parent is None:
                self.stats['paths'] += 1
            keep = set()
            for k in list(st.env):
                if len(k) > 1 and k[1] == fr.id:
                    del st.env[k]
            if val is not None:
                st.env[('ret',)] = val
            else:
                st.env.pop(('ret',), None)
            k = (kind, st.key())
            if k not in exitkeys:
                exitkeys.add(k)
                exits.append((kind, st, val))

        for s in states:
            st = s.copy()
            self.mon.enter(self, st, fr)
            push(cfg.entry, st)
        steps = 0
        while work:
            nid, st = work.pop()
            n = cfg.nodes[nid]
            self.stats['nodes'] += 1
            steps += 1
            if steps > 400000:
                raise AnalysisError('analysis of %s does not settle' % fn.name)
            op = n.op
            if op == 'exit':
                rv = st.env.pop(('rv', fr.id), None)
                leave('ret', st, rv)
                continue
            outs = self.step(fr, n, st)
            for (slot, s) in outs:
                if isinstance(slot, int):
                    if slot < len(n.succ):
                        push(n.succ[slot], s)
                else:
                    kind, cls, val = slot
                    self.raise_(fr, n, s, cls, val, push, leave)
        return exits

    def raise_(self, fr, n, st, cls, val, push, leave):
        h = n.handlers
        while h:
            for (hc, nid) in h[0]:
                if hc is None or (cls and self.p.derives(cls, hc)):
                    st.env[('exc', fr.id)] = val if val is not None else ('r', fr.id, n.id, 'exception')
                    st.env[('excc', fr.id)] = ('s', cls or '?')
                    push(nid, st)
                    return
            h = h[1]
        leave('throw', st, ('exc', cls or '?', val or ('c', 0)))

    def prune(self, st, fr, live):
        env = st.env
        dead = []
        fid = fr.id
        for k in env:
            if k[0] in ('v', 't') and k[1] == fid and (k[0], k[2]) not in live:
                # variables captured elsewhere stay
                dead.append(k)
            elif k[0] == 'tl' and k[1] == fid and ('t', k[2]) not in live:
                dead.append(k)
        if dead:
            for k in dead:
                del env[k]
        # facts on sites nobody holds any more
        if st.facts:
            roots = set()
            for m in (env, st.flags, st.heap):
                for v in m.values():
                    if isinstance(v, tuple):
                        roots |= atoms(v)
            for k in st.heap:
                roots |= atoms(k)
            kf = self.keepfacts
            for t in list(st.facts):
                ok = True
                for a in atoms(t):
                    if a[0] in SITE and a[0] != 'p' and a not in roots:
                        ok = False
                        break
                if ok and t[0] == 'old' and not self.held(st, t):
                    ok = False
                if ok and kf is not None and not kf(t):
                    ok = False
                if not ok:
                    del st.facts[t]

    def held(self, st, t):
        for m in (st.env, st.flags, st.heap):
            for v in m.values():
                if isinstance(v, tuple) and contains(v, t):
                    return True
        return False

    def merge(self, s, st, fr, nid):
        """Joins with a state that has the same rule typestate."""
        self.stats['merges'] += 1
        fl = frozenset(st.flags.items())
        best = None
        for o in s.values():
            if frozenset(o.flags.items()) == fl:
                d = sum(1 for k, v in st.env.items() if o.env.get(k) != v) + \
                    sum(1 for k, v in st.heap.items() if o.heap.get(k) != v)
                if best is None or d < best[0]:
                    best = (d, o)
                    if d == 0:
                        break
        if best is None:
            if len(s) > 20 * self.limit:
                raise AnalysisError('too many rule states in %s' % fr.fn.name)
            return st
        o = best[1]
        n = State()
        n.flags = dict(st.flags)
        n.trace = st.trace
        for k, v in st.env.items():
            if k in o.env:
                n.env[k] = v if o.env[k] == v else ('j', fr.id, nid, str(k))
        for k, v in st.heap.items():
            if o.heap.get(k) == v:
                n.heap[k] = v
            elif k in o.heap:
                n.heap[k] = ('j', fr.id, nid, repr(k))
        # locations known on one side only: their symbolic value differs
        for k in set(st.heap) ^ set(o.heap):
            n.heap[k] = ('j', fr.id, nid, repr(k))
        for t in set(st.facts) | set(o.facts):
            a = st.facts.get(t)
            b = o.facts.get(t)
            if a is None:
                a = st.vs(t) if t[0] == 'op' else TOP
            if b is None:
                b = o.vs(t) if t[0] == 'op' else TOP
            v = vs_join(a, b)
            if v != TOP:
                n.facts[t] = v
        for k, v in n.env.items():
            if v[0] == 'j' and k in st.env and k in o.env:
                w = vs_join(st.vs(st.env[k]), o.vs(o.env[k]))
                if w != TOP:
                    n.facts[v] = w
        return n

    # ------------------------------------------------------------ steps
    def step(self, fr, n, st):
        op = n.op
        mon = self.mon
        if mon.VISIT:
            mon.visit(self, st, fr, n)
        if op in ('entry', 'loophead', 'label', 'goto'):
            return [(0, st)]
        if op == 'assign':
            return self.do_assign(fr, n, st)
        if op == 'call':
            return self.do_call(fr, n, st)
        if op == 'branch':
            t = self.ev(fr, st, n.a, n)
            outs = []
            for slot, truth in ((0, True), (1, False)):
                if slot >= len(n.succ):
                    continue
                s = st.copy()
                if not s.assume(t, truth):
                    continue
                self.note(s, fr, n.line, '%s is %s' % (show(t), 'true' if truth else 'false'))
                if mon.branch(self, s, fr, n, t, truth) is False:
                    continue
                outs.append((slot, s))
            return outs
        if op == 'decl':
            return self.do_decl(fr, n, st)
        if op == 'sdecl':
            return [(0, st)]
        if op == 'new':
            return self.do_new(fr, n, st)
        if op == 'retval':
            v = self.ev(fr, st, n.a, n) if n.a is not None else None
            if n.a is not None and self.returns_ref(fr.fn):
                l = self.lv(fr, st, n.a, n)
                if l is not None:
                    v = self.read(st, l)
                    st.env[('rvl', fr.id)] = l
            if v is not None:
                st.env[('rv', fr.id)] = v
            mon.ret(self, st, fr, n, v)
            return [(0, st)]
        if op == 'ret':
            return [(0, st)]
        if op == 'loopiter':
            if mon.loop(self, st, fr, n, 'iter', n.a) is False:
                return []
            return [(0, st)]
        if op == 'loopback':
            if mon.loop(self, st, fr, n, 'back', n.a) is False:
                return []
            return [(0, st)]
        if op == 'feinit':
            c = self.ev(fr, st, n.b, n)
            loc = self.lv(fr, st, n.b, n)
            outs = []
            s = st.copy()
            s.env[('t', fr.id, n.a['id'])] = c
            if s.set_vs(('size', c), (1, None, ())):
                outs.append((0, s))
            if c[0] == 'list' and c[1]:
                return outs
            s = st
            s.env[('t', fr.id, n.a['id'])] = c
            if s.set_vs(('size', c), FALSE):
                self.note(s, fr, n.line, '%s is empty' % show(c))
                outs.append((1, s))
            return outs
        if op == 'febind':
            c = st.env.get(('t', fr.id, n.b['id'])) or ('r', fr.id, n.id)
            t = ('elem', c, ('site', fr.id, n.id))
            self.fresh(st, t)
            c = st.env.get(('t', fr.id, n.b['id'])) or c
            a = n.a
            if self.unroll and c[0] == 'list' and c[1]:
                key = ('fi', fr.id, n.b['id'])
                i = st.env.get(key, ('c', 0))[1]
                if i >= len(c[1]):
                    i = 0
                t = c[1][i] if i < len(c[1]) else t
                st.env[key] = ('c', i + 1)
            if a.get('binds'):
                for i, b in enumerate(a['binds']):
                    st.env[('v', fr.id, b['id'])] = ('part', t, i)
            elif a.get('k') == 'decl':
                st.env[('v', fr.id, a['id'])] = t
            else:
                l = self.lv(fr, st, a, n)
                if l is not None:
                    self.assign(st, l, t)
            self.note(st, fr, n.line, 'next element of %s' % show(c))
            mon.elem(self, st, fr, n, t)
            return [(0, st)]
        if op == 'fenext':
            c = st.env.get(('t', fr.id, n.a['id']))
            i = st.env.get(('fi', fr.id, n.a['id']))
            if c is not None and c[0] == 'list' and i is not None:
                return [(0 if i[1] < len(c[1]) else 1, st)]
            return [(0, st.copy()), (1, st)]
        if op == 'dtor':
            v = n.a
            mon.dtor(self, st, fr, n, v)
            return self.do_dtor(fr, n, st)
        if op == 'throw':
            v = self.ev(fr, st, n.a, n) if n.a is not None else None
            cls = n.b.get('c')
            if cls is None:
                ec = st.env.get(('excc', fr.id))
                if v is None:
                    v = st.env.get(('exc', fr.id))
                cls = ec[1] if ec else None
                if cls == '?':
                    cls = None
            self.note(st, fr, n.line, 'throws %s' % (cls or ''))
            return [(('throw', cls, v), st)]
        if op == 'catch':
            self.note(st, fr, n.line, 'exception caught')
            if n.a:
                st.env[('v', fr.id, n.a['id'])] = st.env.get(('exc', fr.id)) or ('r', fr.id, n.id)
            mon.caught(self, st, fr, n)
            return [(0, st)]
        if op == 'delete':
            t = self.ev(fr, st, n.a, n)
            ci = CallInfo()
            ci.e, ci.name, ci.short, ci.key = n.b, 'delete', 'delete', 'delete'
            ci.recv, ci.args, ci.rloc, ci.alocs, ci.targets, ci.op = t, [], None, [], [], 'delete'
            ci.signal, ci.line, ci.ctor, ci.isnew, ci.virt = False, n.line, False, False, False
            self.mon.call(self, st, fr, n, ci)
            return [(0, st)]
        raise AnalysisError('unknown node ' + op)

    def returns_ref(self, fn):
        return fn.d.get('rt', '').rstrip().endswith('&')

    def fresh(self, st, t):
        """Makes t name a new value; holders of the previous one are renamed."""
        used = False
        for m in (st.env, st.heap, st.flags):
            for v in m.values():
                if isinstance(v, tuple) and t in atoms(v):
                    used = True
                    break
            if used:
                break
        if not used:
            used = any(t in atoms(k) for k in st.facts) or any(t in atoms(k) for k in st.heap)
        if used:
            o = ('old', t)
            # an even older generation loses its facts
            for k in [k for k in st.facts if contains(k, o)]:
                del st.facts[k]
            st.subst(TermPred(t))
        return t

    # ------------------------------------------------------------ expressions
    def var_key(self, fr, e, st):
        vid = e['id']
        f = fr
        while f is not None:
            k = ('v', f.id, vid)
            if k in st.env:
                return k
            f = f.parent
        return ('v', fr.id, vid)

    def ev(self, fr, st, e, n=None):
        """Value term of a lowered expression."""
        if e is None:
            return ('unk', fr.id, n.id if n else 0)
        k = e['k']
        if k == 'int':
            return ('c', e['v'])
        if k == 'str':
            return ('s', e['v'])
        if k == 'tmp':
            v = st.env.get(('t', fr.id, e['id']))
            if v is None:
                return ('u', fr.id, 't%d' % e['id'])
            if v[0] == 'ref':
                return self.read(st, v[1])
            return v
        if k == 'this':
            return fr.this
        if k == 'var':
            g = e.get('g')
            if g in ('global', 'static', 'smember'):
                loc = ('g', e['n'])
                return self.read(st, loc)
            key = self.var_key(fr, e, st)
            v = st.env.get(key)
            if v is None:
                return ('u', fr.id, 'v%d' % e['id'])
            if v[0] == 'ref':
                return self.read(st, v[1])
            return v
        if k == 'mem':
            loc = self.lv(fr, st, e, n)
            return self.read(st, loc)
        if k == 'cast':
            t = self.ev(fr, st, e['e'], n)
            if e.get('t') == 'b' and e.get('ty') == 'bool' and t[0] == 'c':
                return ('c', int(t[1] != 0))
            if e.get('nw'):
                w = abs(e['nw'])
                if t[0] == 'c':
                    v = t[1] & ((1 << w) - 1)
                    return ('c', v - (1 << w) if e['nw'] < 0 and v >> (w - 1) else v)
                return ('op', 'narrow%d' % e['nw'], t)
            return t
        if k == 'un':
            op = e['op']
            if op == '&':
                l = self.lv(fr, st, e['e'], n)
                if l is None:
                    return self.ev(fr, st, e['e'], n)
                if l[0] == 'loc':
                    v = st.env.get(('v', l[1], l[2]))
                    if v is not None and v[0] in ('new', 'obj', 'adr'):
                        return ('adr', l) if e['e'].get('t') != 'r' else v
                    return ('adr', l)
                return ('adr', l) if e['e'].get('t') != 'r' else ('adr', l)
            if op == '*':
                t = self.ev(fr, st, e['e'], n)
                if t[0] == 'adr':
                    return self.read(st, t[1])
                if e.get('t') == 'r':
                    return t
                return ('d', t)
            t = self.ev(fr, st, e['e'], n)
            if op == '!':
                if t[0] == 'c':
                    return ('c', int(not t[1]))
                return ('op', '!', t)
            if op == '-':
                if t[0] == 'c':
                    return ('c', -t[1])
                return ('op', 'neg', t)
            if op == '+':
                return t
            return ('op', op, t)
        if k == 'bin':
            a = self.ev(fr, st, e['a'], n)
            b = self.ev(fr, st, e['b'], n)
            return self.binop(st, e['op'], a, b)
        if k == 'sub':
            a = self.ev(fr, st, e['a'], n)
            b = self.ev(fr, st, e['b'], n)
            if a[0] == 'list':
                c = st.val(b)
                if c is not None and 0 <= c < len(a[1]) and ('elem', a, b) not in st.heap:
                    return a[1][c]
            return ('elem', a, b)
        if k == 'ctor':
            a = [self.ev(fr, st, x, n) for x in e['a'] if not x.get('def')]
            cls = e.get('cls') or e.get('c')
            if e.get('cp') or e.get('mv'):
                return a[0] if a else ('dflt', cls)
            if not a:
                return ('dflt', cls)
            if len(a) >= 1 and (cls in TRANSPARENT) and len(a) == 1:
                return a[0]
            return ('obj', cls, tuple(a))
        if k == 'fref':
            return ('fn', e.get('u'))
        if k == 'lambda':
            return ('lam', e['u'])
        if k == 'ilist':
            a = e.get('a', [])
            if not a:
                return ('dflt', e.get('ty', ''))
            return ('list', tuple(self.ev(fr, st, x, n) for x in a))
        if k == 'bind':
            return ('unk', fr.id, n.id if n else 0)
        return ('unk', fr.id, n.id if n else 0, tuple(self.ev(fr, st, x, n) for x in e.get('a', []) if isinstance(x, dict)))

    def binop(self, st, op, a, b):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if a[0] == 'c' and b[0] == 'c':
                x, y = a[1], b[1]
                return ('c', int({'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]))
            c, neg = cmp_term(op, a, b)
            # size == 0 and the like are kept as comparisons
            return ('op', '!', c) if neg else c
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '&': lambda: x & y, '|': lambda: x | y,
                     '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}.get(op)
                if v:
                    return ('c', v())
            except Exception:
                pass
        if op in ('+', '*', '&', '|', '^') and a[0] == 'c' and b[0] != 's':
            a, b = b, a
        return ('op', op, a, b)

    def read(self, st, loc):
        if loc is None:
            return ('unk', 0, 0)
        k = loc[0]
        if k == 'loc':
            v = st.env.get(('v', loc[1], loc[2]))
            if v is None:
                return ('u', loc[1], 'v%d' % loc[2])
            if v[0] == 'ref':
                return self.read(st, v[1])
            return v
        v = st.heap.get(loc)
        if v is not None:
            return v
        return loc

    def lv(self, fr, st, e, n=None):
        """Location term of an lvalue expression, or None for values."""
        k = e['k']
        if k == 'var':
            if e.get('g') in ('global', 'static', 'smember'):
                return ('g', e['n'])
            key = self.var_key(fr, e, st)
            v = st.env.get(key)
            if v is not None and v[0] == 'ref':
                return v[1]
            return ('loc', key[1], key[2], e.get('n', ''))
        if k == 'mem':
            b = e['b']
            if e.get('arrow') or b['k'] == 'this':
                bt = self.ev(fr, st, b, n)
                if bt[0] == 'adr':
                    bt = self.obj_of(st, bt[1])
                elif bt[0] in NULLABLE:
                    st.set_vs(bt, NONZERO)      # it is dereferenced
            else:
                bl = self.lv(fr, st, b, n)
                if bl is None or bl[0] == 'loc':
                    bt = self.ev(fr, st, b, n)
                else:
                    bt = self.obj_of(st, bl)
            return ('f', bt, e['n'])
        if k == 'tmp':
            v = st.env.get(('t', fr.id, e['id']))
            if v is not None and v[0] == 'ref':
                return v[1]
            l = st.env.get(('tl', fr.id, e['id']))
            if l is not None:
                return l
            return None
        if k == 'un' and e['op'] == '*':
            t = self.ev(fr, st, e['e'], n)
            if t[0] == 'adr':
                return t[1]
            return ('d', t)
        if k == 'cast':
            return self.lv(fr, st, e['e'], n)
        if k == 'sub':
            a = self.ev(fr, st, e['a'], n)
            b = self.ev(fr, st, e['b'], n)
            return ('elem', a, b)
        if k == 'bin' and e['op'] == ',':
            return self.lv(fr, st, e['b'], n)
        return None

    def obj_of(self, st, loc):
        """Object term of a location of class type (its identity)."""
        if loc[0] == 'loc':
            v = st.env.get(('v', loc[1], loc[2]))
            if v is not None and v[0] != 'ref':
                return v
            return loc
        v = st.heap.get(loc)
        if v is not None and v[0] in ('new',):
            return v
        return loc

    # ------------------------------------------------------------ writes
    def assign(self, st, loc, val):
        k = loc[0]
        if k == 'loc':
            key = ('v', loc[1], loc[2])
            v = st.env.get(key)
            if v is not None and v[0] == 'ref':
                return self.assign(st, v[1], val)
            st.env[key] = val
            return
        if k == 'f':
            st.env[('\x00',)] = val
            self.kill(st, frozenset([loc[2]]), loc[1])
            val = st.env.pop(('\x00',))
            if self.heapkeep is None or loc[2] in self.heapkeep:
                st.heap[loc] = val
            return
        if k == 'g':
            st.env[('\x00',)] = val
            self.kill(st, frozenset(['g:' + loc[1]]))
            val = st.env.pop(('\x00',))
            st.heap[loc] = val
            return
        if k == 'elem' and len(loc) > 3:
            # an entry of a hash or map: the container changes
            c = loc[1]
            if c[0] == 'f':
                self.kill(st, frozenset([c[2]]), c[1])
            elif c[0] == 'g':
                self.kill(st, frozenset(['g:' + c[1]]))
            return
        # element or dereferenced pointer
        st.heap[loc] = val

    def kill(self, st, names, base=None):
        """The named fields (of objects that may be base) change."""
        if not names:
            return
        pr = FieldPred(names, base, st)
        # locations
        for k in list(st.heap):
            if pr(k):
                del st.heap[k]
        st.subst(pr)

    def havoc_loc(self, fr, st, loc, n, tag=''):
        """An unknown new value is stored at loc; returns it."""
        if loc is None:
            return None
        if loc[0] == 'loc':
            key = ('v', loc[1], loc[2])
            v = st.env.get(key)
            if v is not None and v[0] == 'ref':
                return self.havoc_loc(fr, st, v[1], n, tag)
            t = ('r', fr.id, n.id, loc[3] if len(loc) > 3 else tag)
            self.fresh(st, t)
            st.env[key] = t
            return t
        if loc[0] in ('f', 'g'):
            nm = loc[2] if loc[0] == 'f' else 'g:' + loc[1]
            self.kill(st, frozenset([nm]), loc[1] if loc[0] == 'f' else None)
            return loc
        st.heap.pop(loc, None)
        if loc[0] == 'elem' or loc[0] == 'd':
            t = ('r', fr.id, n.id, 'x')
            self.fresh(st, t)
            st.heap[loc] = t
            return t
        return loc

    def do_assign(self, fr, n, st):
        mon = self.mon
        a, op = n.a, n.c
        if a['k'] == 'tmp' and (op == 'tmp' or self.lv(fr, st, a, n) is None):
            v = self.ev(fr, st, n.b, n)
            key = ('t', fr.id, a['id'])
            l = self.lv(fr, st, n.b, n) if n.b.get('t') == 'r' else None
            st.env[key] = v
            if l is not None and l[0] != 'loc':
                st.env[('tl', fr.id, a['id'])] = l
            return [(0, st)]
        rhs = self.ev(fr, st, n.b, n)
        loc = self.lv(fr, st, a, n)
        if loc is None:
            loc = ('d', self.ev(fr, st, a, n))
        if op in ('=', 'init', 'opassign'):
            val = rhs
        else:
            cur = self.read(st, loc)
            bop = op[:-1]
            val = self.compound(fr, st, n, cur, bop, rhs, loc)
        # small own assignment operators are not inlined: the value is copied
        if mon.write(self, st, fr, n, loc, val, op) is False:
            return []
        self.assign(st, loc, val)
        return [(0, st)]

    def compound(self, fr, st, n, cur, op, rhs, loc):
        if op in ('+', '-') and cur[0] == 'c' and rhs[0] == 'c' and not self.in_loop(fr, n):
            return ('c', cur[1] + rhs[1] if op == '+' else cur[1] - rhs[1])
        if op in ('|', '&', '^') and cur[0] == 'c' and rhs[0] == 'c':
            return self.binop(st, op, cur, rhs)
        if self.unroll and op in ('+', '-') and cur[0] == 'c' and rhs[0] == 'c':
            k = cur[1] + rhs[1] if op == '+' else cur[1] - rhs[1]
            if 0 <= k <= 8:
                return ('c', k)
        if self.steps and op in ('+', '-') and rhs[0] == 'c' and not self.in_loop(fr, n):
            return ('op', op, cur, rhs)
        if self.steps == 'all' and op in ('+', '-') and len(repr(cur)) + len(repr(rhs)) < 3000:
            return self.binop(st, op, cur, rhs)     # the rule replaces the sum by a symbol in each iteration
        v = st.vs(cur)
        r = st.vs(rhs)
        t = ('r', fr.id, n.id, show(loc))
        # keep the facts of what is now the former value alive through the renaming
        self.fresh(st, t)
        w = TOP
        if op == '+' and r[0] is not None and r[0] >= 1 and v[0] is not None and v[0] >= 0:
            w = (1, None, ())
        elif op == '+' and r[0] is not None and r[0] >= 0 and v[0] is not None and v[0] >= 0:
            w = (0, None, ())
        elif op == '-' and r[0] is not None and r[0] == r[1] == 1 and v[0] is not None and v[0] >= 1:
            w = (0, v[1] - 1 if v[1] is not None and v[1] < 1000 else None, ())
        elif op == '|':
            if not vs_has(v, 0) or not vs_has(r, 0):
                w = NONZERO
        elif op == '&':
            if v == FALSE or r == FALSE:
                return ('c', 0)
        if w != TOP:
            st.facts[t] = w
        return t

    def in_loop(self, fr, n):
        cfg = fr.fn.cfg
        c = getattr(cfg, 'inloop', None) if hasattr(cfg, 'inloop') else None
        if c is None:
            c = set()
            for m in cfg.nodes:
                if m.op in ('loophead', 'febind'):
                    # nodes that can reach the head again
                    fwd = self.p._reach(cfg, m.id)
                    for x in fwd:
                        if x not in c and m.id in self.p._reach(cfg, x) and x != m.id:
                            c.add(x)
            cfg.inloop = c
        return n.id in c

    def do_decl(self, fr, n, st):
        v = n.a
        key = ('v', fr.id, v['id'])
        if v.get('binds'):
            t = self.ev(fr, st, n.b, n)
            for i, b in enumerate(v['binds']):
                st.env[('v', fr.id, b['id'])] = ('part', t, i)
            st.env[key] = t
            return [(0, st)]
        if n.b is None:
            st.env[key] = ('u', fr.id, 'v%d' % v['id'])
            self.mon.write(self, st, fr, n, ('loc', fr.id, v['id'], v['n']), None, 'decl')
            return [(0, st)]
        if v.get('ref') or v.get('ty', '').rstrip().endswith('&'):
            l = self.lv(fr, st, n.b, n)
            if l is not None:
                if l[0] == 'loc' and ('v', l[1], l[2]) == key:
                    l = None
            if l is not None:
                st.env[key] = ('ref', l)
                return [(0, st)]
        t = self.ev(fr, st, n.b, n)
        if t[0] == 'obj' and len(t) == 3 and not (n.b.get('cp') or n.b.get('mv')):
            # an object of its own
            t = ('obj', t[1], t[2], fr.id, n.id)
        elif t[0] == 'list' and len(t) == 2 and not v.get('ty', '').rstrip().endswith(']'):
            t = t + (('loc', fr.id, v['id'], v['n']),)
        elif t[0] == 'dflt' and n.b['k'] == 'ctor' and (v.get('rec') or '').startswith(NS):
            t = ('obj', t[1], (), fr.id, n.id)
        st.env[('\x00',)] = t
        if t[0] == 'obj':
            self.fresh(st, t)
            st.env.pop(('\x00',))
        else:
            t = st.env.pop(('\x00',))
        if self.mon.write(self, st, fr, n, ('loc', fr.id, v['id'], v['n']), t, 'decl') is False:
            return []
        st.env[key] = t
        return [(0, st)]

    def do_dtor(self, fr, n, st):
        cls = n.a.get('rec')
        if cls:
            d = self.p.byname.get(cls + '::~' + cls.split('::')[-1])
            if d and self.want(fr, d[0]):
                t = st.env.get(('v', fr.id, n.a['id'])) or ('loc', fr.id, n.a['id'], n.a['n'])
                return self.inline(fr, n, st, d[0], t, [], [], None)
        return [(0, st)]

    # ------------------------------------------------------------ calls
    def want(self, fr, fn):
        if fn.key in self.noinline:
            return False
        m = self.mon.inline(self, fn)
        if m is not None:
            return m
        if fn.key in self.interest:
            return True
        if self.small:
            cfg = fn.cfg
            if len(cfg.nodes) <= self.small and not cfg.loops and not any(
                    n.op in ('call',) and self.p.targets(n.b) for n in cfg.nodes) and not self.p.throws()[fn.key]:
                return True
            if fn.d.get('lambda') and len(cfg.nodes) <= 60:
                return True
        return False

    def callinfo(self, fr, st, n, e):
        ci = CallInfo()
        ci.e = e
        ci.name = e.get('f', '')
        ci.short = ci.name.split('::')[-1]
        ci.key = e.get('u', ci.name)
        ci.op = e.get('op')
        ci.line = n.line
        ci.recv = None
        ci.rloc = None
        ci.ctor = e['k'] == 'ctor'
        ci.isnew = False
        ci.virt = bool(e.get('virt'))
        ci.signal = ci.name in self.p.signals
        o = e.get('o')
        if o is None and e.get('fe') is not None:
            o = e['fe']
        if o is not None:
            ci.recv = self.ev(fr, st, o, n)
            if ci.recv[0] == 'adr':
                ci.rloc = ci.recv[1]
                ci.recv = self.read(st, ci.rloc) if e.get('arrow') else ci.recv
            elif e.get('arrow'):
                if ci.recv[0] in NULLABLE:
                    st.set_vs(ci.recv, NONZERO)
            elif not e.get('arrow'):
                ci.rloc = self.lv(fr, st, o, n)
        ci.args = []
        ci.alocs = []
        for a in e['a']:
            ci.args.append(self.ev(fr, st, a, n))
            ci.alocs.append(self.lv(fr, st, a, n))
        ci.targets = self.p.targets(e)
        # a lambda or function object held in a variable
        if ci.recv is not None and ci.recv[0] == 'lam' and ci.short == 'operator()' and ci.recv[1] in self.p.funcs:
            ci.targets = [self.p.funcs[ci.recv[1]]]
        return ci

    def do_call(self, fr, n, st):
        e = n.b
        if e['k'] == 'ctor':
            return self.do_ctor(fr, n, st, e)
        ci = self.callinfo(fr, st, n, e)
        self.stats['calls'] += 1
        rep = self.mon.call(self, st, fr, n, ci)
        if rep is not None:
            outs = []
            for s, res in rep:
                self.setres(fr, s, n, res)
                self.mon.after(self, s, fr, n, ci, res)
                outs.append((0, s))
            return outs
        if e.get('noret'):
            self.mon.noreturn(self, st, fr, n, ci)
            return []
        if ci.signal:
            return self.do_signal(fr, n, st, ci)
        ts = ci.targets
        if ts:
            return self.own_call(fr, n, st, ci, ts)
        return self.lib_call(fr, n, st, ci)

    def setres(self, fr, st, n, t):
        if n.a is not None and t is not None:
            st.env[('t', fr.id, n.a['id'])] = t

    def own_call(self, fr, n, st, ci, ts):
        outs = []
        many = len(ts) > 1
        this = ci.recv if ci.recv is not None else fr.this
        if ci.recv is not None and ci.recv[0] == 'ref':
            this = ci.recv[1]
        if any(self.want(fr, t) for t in ts) and not any(t in fr.stack() for t in ts) and fr.depth < self.depth \
                and not (ci.op in CMP and len(ci.args) + (1 if ci.recv is not None else 0) == 2):
            for t in ts:
                s = st.copy() if many else st
                outs.extend(self.inline(fr, n, s, t, this, ci.args, ci.alocs, ci))
            return outs
        # comparison operators of own value classes stay symbolic
        if ci.op in CMP:
            a, b = (ci.recv, ci.args[0]) if ci.recv is not None else (ci.args[0], ci.args[1])
            res = self.binop(st, ci.op, a, b)
            self.setres(fr, st, n, res)
            self.mon.after(self, st, fr, n, ci, res)
            return [(0, st)]
        # effects of a call that is not followed
        f0 = ts[0]
        thr = set()
        mods = set()
        for t in ts:
            thr |= self.p.throws()[t.key]
            mods |= self.p.mods(t)
        self.havoc_args(fr, n, st, ci)
        if not mods and (f0.const or f0.d.get('static') or f0.cls is None):
            res = ('m', f0.key, ci.recv if ci.recv is not None else (fr.this if f0.const else None), tuple(ci.args))
        else:
            if mods:
                self.kill(st, frozenset(mods))
            res = ('r', fr.id, n.id, ci.short + '()')
            self.fresh(st, res)
        for c in sorted(thr):
            s = st.copy()
            self.note(s, fr, n.line, '%s throws %s' % (ci.short, c))
            outs.append((('throw', c, None), s))
        self.setres(fr, st, n, res)
        self.mon.after(self, st, fr, n, ci, res)
        outs.append((0, st))
        return outs

    def inline(self, fr, n, st, fn, this, args, alocs, ci):
        sub = self.frame(fr, n.id, fn, this, n.line)
        sub.node = n
        st.env.pop(('rv', sub.id), None)
        e = ci.e if ci is not None else None
        pk = e.get('p', '') if e is not None else ''
        for i, p in enumerate(fn.params):
            key = ('v', sub.id, p['id'])
            if i < len(args):
                kind = p.get('pk') or (pk[i] if i < len(pk) else 'v')
                l = alocs[i] if i < len(alocs) else None
                if kind == 'r' and l is not None:
                    st.env[key] = ('ref', l)
                elif kind == 'c' and l is not None and l[0] == 'loc':
                    st.env[key] = ('ref', l)
                else:
                    st.env[key] = args[i]
            else:
                st.env[key] = ('p', fn.key, p['n'])
        if not fn.d.get('lambda'):
            pass
        else:
            # a lambda sees the object of its creator
            f = fr
            sub.this = self.lambda_this(fr, fn)
        self.note(st, fr, n.line, 'calls %s' % fn.short)
        mk = (sub.id, st.key())
        res = self.memo.get(mk)
        if res is None:
            res = self.exec(sub, [st])
            self.memo[mk] = [(k, s.copy(), v) for k, s, v in res]
        else:
            tr = st.trace
            res = [(k, s.copy(), v) for k, s, v in res]
        outs = []
        for kind, s, v in res:
            if kind == 'throw':
                outs.append((('throw', v[1] if v[1] != '?' else None, v[2]), s))
                continue
            s.env.pop(('ret',), None)
            l = s.env.pop(('rvl', sub.id), None)
            if v is None:
                v = ('c', 0)
            self.setres(fr, s, n, v) if n.op in ('call', 'new') else None
            if l is not None and n.op == 'call' and l[0] != 'loc':
                s.env[('tl', fr.id, n.a['id'])] = l
            if ci is not None:
                self.mon.after(self, s, fr, n, ci, v)
            outs.append((0, s))
        return outs

    def lambda_this(self, fr, fn):
        return fr.this

    def havoc_args(self, fr, n, st, ci):
        p = ci.e.get('p', '')
        for i, l in enumerate(ci.alocs):
            k = p[i] if i < len(p) and '*' not in p[:i + 1] else 'v'
            if k == 'r' and l is not None:
                self.havoc_loc(fr, st, l, n, 'arg')
            elif k == 'p':
                a = ci.args[i]
                if a[0] == 'adr':
                    self.havoc_loc(fr, st, a[1], n, 'out')

    def do_signal(self, fr, n, st, ci):
        slots = self.p.signal_slots(ci.name)
        mods = set()
        thr = set()
        inl = [s for s in slots if self.want(fr, s) and s not in fr.stack()]
        for s in slots:
            mods |= self.p.mods(s)
        if mods:
            self.kill(st, frozenset(mods))
        self.setres(fr, st, n, ('c', 0))
        self.mon.after(self, st, fr, n, ci, ('c', 0))
        return [(0, st)]

    def do_ctor(self, fr, n, st, e):
        ci = self.callinfo(fr, st, n, e)
        ci.ctor = True
        rep = self.mon.call(self, st, fr, n, ci)
        cls = e.get('cls') or e.get('c')
        a = tuple(ci.args)
        t = ('obj', cls, a, fr.id, n.id)
        st.env[('\x00',)] = ('list', a)
        self.fresh(st, t)
        st.env.pop(('\x00',), None)
        outs = []
        fns = [self.p.funcs[e['u']]] if e.get('u') in self.p.funcs else []
        if fns and self.want(fr, fns[0]) and fns[0] not in fr.stack() and fr.depth < self.depth \
                and fns[0].key in self.interest:
            for slot, s in self.inline(fr, n, st, fns[0], t, ci.args, ci.alocs, ci):
                if isinstance(slot, int):
                    self.setres(fr, s, n, t)
                outs.append((slot, s))
            return outs
        if fns:
            self.havoc_args(fr, n, st, ci)
            m = {x for x in self.p.mods(fns[0]) if not x.startswith((cls or '?') + '::')}
            if m:
                self.kill(st, frozenset(m))
            for c in sorted(self.p.throws()[fns[0].key]):
                s = st.copy()
                self.note(s, fr, n.line, '%s throws %s' % (ci.short, c))
                outs.append((('throw', c, None), s))
        self.setres(fr, st, n, t)
        self.mon.after(self, st, fr, n, ci, t)
        outs.append((0, st))
        return outs

    def do_new(self, fr, n, st):
        e = n.b
        i = e.get('i')
        ty = e.get('c') or e.get('ty')
        t = ('new', ty, fr.id, n.id)
        args = ()
        if isinstance(i, dict) and i.get('k') == 'ctor':
            ci = self.callinfo(fr, st, n, i)
            ci.isnew = True
            self.fresh(st, t)
            ci.recv = t
            self.mon.call(self, st, fr, n, ci)
            fns = [self.p.funcs[i['u']]] if i.get('u') in self.p.funcs else []
            outs = []
            if fns and self.want(fr, fns[0]) and fns[0].key in self.interest and fns[0] not in fr.stack() and fr.depth < self.depth:
                for slot, s in self.inline(fr, n, st, fns[0], t, ci.args, ci.alocs, ci):
                    if isinstance(slot, int):
                        self.setres(fr, s, n, t)
                    outs.append((slot, s))
                return outs
            if fns:
                self.havoc_args(fr, n, st, ci)
                m = {x for x in self.p.mods(fns[0]) if not x.startswith((ty or '?') + '::')}
                if m:
                    self.kill(st, frozenset(m))
                for c in sorted(self.p.throws()[fns[0].key]):
                    s = st.copy()
                    outs.append((('throw', c, None), s))
            self.setres(fr, st, n, t)
            self.mon.after(self, st, fr, n, ci, t)
            outs.append((0, st))
            return outs
        self.fresh(st, t)
        self.setres(fr, st, n, t)
        return [(0, st)]

    # ------------------------------------------------------------ library model
    def lib_call(self, fr, n, st, ci):
        e = ci.e
        name = ci.name
        base = name.split('<')[0] + ('::' + ci.short if '<' in name else '')
        short = ci.short
        cls = e.get('cls') or ''
        res = None
        op = ci.op
        args = ci.args
        if op in CMP and (len(args) == 2 or (ci.recv is not None and len(args) == 1)):
            a, b = (ci.recv, args[0]) if ci.recv is not None else (args[0], args[1])
            res = self.binop(st, op, a, b)
        elif op == '!' and ci.recv is not None:
            res = ('op', '!', ci.recv)
        elif (base in TRANSPARENT_CALLS or name in TRANSPARENT_CALLS or short.split('<')[0] in TRANSPARENT_CALLS) \
                and (ci.recv is not None or args):
            res = ci.recv if ci.recv is not None and not e.get('static') else args[0]
        elif e.get('conv'):
            res = ci.recv
        elif ci.recv is not None and short in ('operator->', 'get') and not args and ci.recv[0] != 'iter':
            res = ci.recv
        elif ci.recv is not None and short in ('operator*', 'value', 'key', 'operator->') and not args and ci.recv[0] == 'iter':
            res = ('elem', ci.recv[1], ci.recv[2]) if short != 'key' else ('key', ci.recv[1], ci.recv[2])
            st.env[('tl', fr.id, n.a['id'])] = res
            res = self.read(st, res)
            self.mon.elem(self, st, fr, n, ('elem', ci.recv[1], ci.recv[2]))
        elif ci.recv is not None and ci.recv[0] == 'iter' and short in ('operator++', 'operator--', 'operator+=', 'operator-='):
            t = ('r', fr.id, n.id, 'position')
            it = ('iter', ci.recv[1], t)
            st.env[('\x00',)] = it[1]
            self.fresh(st, t)
            it = ('iter', st.env.pop(('\x00',)), t)
            old = ci.recv
            if ci.rloc is not None:
                self.assign(st, ci.rloc, it)
                st.env[('tl', fr.id, n.a['id'])] = ci.rloc
            res = it if not args else ('old', old)
        elif ci.recv is not None and short in ('begin', 'constBegin', 'cbegin') and not args:
            res = ('iter', ci.recv, ('c', 0))
        elif ci.recv is not None and short in ('end', 'constEnd', 'cend') and not args:
            res = ('iterend', ci.recv)
        elif ci.recv is not None and short == 'operator*' and not args:
            res = ci.recv if ci.recv[0] == 'elem' else ('elem', ci.recv, ('c', 0))
        elif ci.recv is not None and short in SIZES and not args and e.get('const'):
            res = ('size', ci.recv)
        elif ci.recv is not None and short in ('isEmpty', 'empty') and not args and e.get('const'):
            res = self.binop(st, '==', ('size', ci.recv), ('c', 0))
        elif ci.recv is not None and short in ('first', 'front', 'last', 'back', 'top', 'head', 'constFirst', 'constLast') and not args:
            res = ('elem', ci.recv, ('s', 'first' if short in ('first', 'front', 'head', 'constFirst') else 'last'))
            if n.a is not None and not e.get('const'):
                st.env[('tl', fr.id, n.a['id'])] = res
            self.mon.elem(self, st, fr, n, res)
            res = self.read(st, res)
        elif ci.recv is not None and (op == '[]' or short == 'at') and len(args) == 1 and 'Hash' not in cls and 'Map' not in cls:
            loc = ('elem', ci.recv, args[0])
            st.env[('tl', fr.id, n.a['id'])] = loc
            self.mon.elem(self, st, fr, n, loc)
            res = self.read(st, loc)
        elif ci.recv is not None and op == '[]' and ('Hash' in cls or 'Map' in cls):
            loc = ('elem', ci.recv, args[0], 'hash')
            # may insert
            st.env[('tl', fr.id, n.a['id'])] = loc
            res = self.read(st, loc)
        elif ci.recv is not None and e.get('const') and not any(c in 'rp' for c in e.get('p', '').replace('*', '')):
            if cls and any((cls + '::').startswith(x) for x in ENVLIKE):
                res = ('r', fr.id, n.id, short + '()')
                self.fresh(st, res)
            else:
                res = ('m', base, ci.recv, tuple(args))
        elif ci.recv is not None and not e.get('const'):
            res = self.lib_mutator(fr, n, st, ci, base, short, cls)
        else:
            # free or static function
            pure = not any(c in 'rp' for c in e.get('p', '').replace('*', '')) and self.pure_free(name, cls)
            if op in ('<<', '+=', '>>') and args:
                l = ci.alocs[0]
                self.havoc_args(fr, n, st, ci)
                res = self.havoc_loc(fr, st, l, n) if l is not None else None
                if res is None:
                    res = ('r', fr.id, n.id, 'x')
                    self.fresh(st, res)
                if l is not None:
                    st.env[('tl', fr.id, n.a['id'])] = l
            elif pure:
                res = ('m', base, None, tuple(args))
            else:
                self.havoc_args(fr, n, st, ci)
                if name in ('QCoreApplication::exec', 'QCoreApplication::processEvents'):
                    self.event_loop(st)
                res = ('r', fr.id, n.id, short + '()')
                st.env[('\x00',)] = ('list', tuple(args))
                self.fresh(st, res)
                st.env.pop(('\x00',), None)
        self.setres(fr, st, n, res)
        self.mon.after(self, st, fr, n, ci, res)
        return [(0, st)]

    def pure_free(self, name, cls):
        if cls and any((cls + '::').startswith(x) for x in ENVLIKE):
            return False
        if cls.startswith('Q') or name.startswith('Q') or name.startswith('q') or name.startswith('operator') \
                or name in ('isspace', 'isalpha', 'isdigit', 'toupper', 'tolower', 'isalnum', 'strlen', 'wcslen', 'strcmp', 'CompareFileTime'):
            return name not in ('qgetenv', 'qrand', 'qputenv')
        return False

    def event_loop(self, st):
        mods = set()
        for f in self.p.event_entries():
            mods |= self.p.mods(f)
        self.kill(st, frozenset(mods))

    GROW = {'append', 'push_back', 'prepend', 'push_front', 'insert', 'push', 'enqueue', 'operator<<', 'operator+='}

    def lib_mutator(self, fr, n, st, ci, base, short, cls):
        loc = ci.rloc
        from .prog import nonmutating
        if nonmutating(ci.e):
            if short in ('begin', 'constBegin', 'end', 'constEnd'):
                return ('m', base, ci.recv, ())
            if short == 'find':
                return ('m', base, ci.recv, tuple(ci.args))
            res = ('elem', ci.recv, ('s', short))
            return self.read(st, res)
        if (cls or '') == 'QEventLoop' and short == 'exec':
            self.event_loop(st)
            res = ('r', fr.id, n.id, 'exec()')
            self.fresh(st, res)
            return res
        sizev = st.vs(('size', ci.recv))
        rets_first = short in ('takeFirst', 'takeLast', 'pop', 'takeAt', 'take', 'dequeue', 'pop_front')
        self.havoc_args(fr, n, st, ci)
        recv_is_obj = ci.recv[0] in ('new',) or (ci.e.get('arrow') and loc is None)
        elem = None
        if rets_first:
            what = 'first' if short in ('takeFirst', 'dequeue') else 'last' if short in ('takeLast', 'pop') else 'x'
            elem = ('elem', ci.recv, ('s', what) if what != 'x' else (ci.args[0] if ci.args else ('s', 'x')))
            st.env[('\x01',)] = elem
        newv = None
        if loc is not None and not self.identity(cls):
            if short in ('clear', 'reset') and not ci.args:
                if loc[0] in ('f', 'g'):
                    self.assign(st, loc, ('dflt', cls))
                    newv = ('dflt', cls)
                else:
                    newv = ('dflt', cls)
                    self.assign(st, loc, newv)
            else:
                newv = self.havoc_loc(fr, st, loc, n)
                if newv is not None and newv[0] != 'ref':
                    if short in self.GROW and (cls.startswith('Q') and 'Stream' not in cls):
                        if not (cls in ('QString', 'QByteArray', 'QStringList') and short in ('append', 'prepend', 'insert', 'operator+=', 'operator<<')
                                and cls != 'QStringList') :
                            st.set_vs(('size', newv), (1, None, ()))
                        elif sizev[0] is not None and sizev[0] >= 1:
                            st.set_vs(('size', newv), (1, None, ()))
                    elif rets_first or short in ('removeFirst', 'removeLast', 'chop'):
                        pass
        if short in ('operator<<', 'operator+=', 'append', 'operator|=', 'operator=') and loc is not None:
            st.env[('tl', fr.id, n.a['id'])] = loc
        if rets_first:
            elem = st.env.pop(('\x01',))
            t = ('r', fr.id, n.id, show(strip_old(elem)))
            # keep the origin visible
            t = elem if elem[0] == 'old' or ('old' in repr(elem)) else t
            if t[0] == 'r':
                self.fresh(st, t)
            self.mon.elem(self, st, fr, n, t if t[0] in ('elem', 'old') else elem)
            return t
        if newv is not None and short in self.GROW:
            return newv
        res = ('r', fr.id, n.id, short + '()')
        self.fresh(st, res)
        return res

    def identity(self, cls):
        return cls in ('QMutex', 'QThread', 'QEventLoop', 'QSystemSemaphore', 'QObject', 'QTextStream', 'QFile', 'QTimer',
                       'QCoreApplication', 'QIODevice', 'QSemaphore', 'QProcess', 'QTemporaryFile')


# ---------------------------------------------------------------- reports
def trace_lines(st, limit=30):
    r = []
    t = st.trace
    while t is not None and len(r) < limit:
        prev, fn, file, line, text = t
        r.append('%s:%s %s: %s' % (file.split('/')[-1], line, fn, text))
        t = prev
    r.reverse()
    return r
