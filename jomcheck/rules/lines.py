"""C31: reading of lines."""
from .common import *
from .registry import check
from .executor import cur
from .graph import enum_value
from .process import poly, padd, freeze
from .expand import assigned_in, number, Text

RD = NS + 'MakefileLineReader::'
BUF, SIZE, NUM = RD + 'm_lineBuffer', RD + 'm_nLineBufferSize', RD + 'm_nLineNumber'
CONTENT, CONT = NS + 'MakefileLine::content', NS + 'MakefileLine::continuation'
BACK, CARET, HASH, NL, CR = 92, 94, 35, 10, 13
THIS = ('this',)


def neg(p):
    return {k: -v for k, v in p.items()}


def sub(a, b):
    return padd(a, neg(b))


def const(p):
    """The value of a linear expression without atoms."""
    if p is None or any(k != 1 for k in p):
        return None
    return p.get(1, 0)


def table(n, c1, c2):
    """What a line of n (2: two or more) characters that ends with c2 c1 stands for: last two characters, continuation."""
    last = [c for c in (c2, c1)][2 - min(n, 2):]
    if n >= 2 and (c2, c1) == (CARET, BACK):
        return [BACK], 0
    if n >= 2 and (c2, c1) == (BACK, BACK):
        return last, 0
    if n >= 1 and c1 == BACK:
        return last[:-1], 1
    if n >= 1 and c1 == CARET:
        return last[:-1], 2
    return last, 0


def scenarios():
    chars = (BACK, CARET, 120)
    yield 0, None, None
    for c1 in chars:
        yield 1, c1, None
        for c2 in chars:
            yield 2, c1, c2


class Facts(Rule):
    """Linear inequalities between integers: flags ('ge', p) = k for p >= k."""

    def learn(self, st, p, k):
        """p >= k is known."""
        p = dict(p)
        k -= p.pop(1, 0)
        if not p:
            return
        f = ('ge', freeze(p))
        st.flags[f] = max(k, st.flags.get(f, k))

    def prove(self, st, p, k, depth=3):
        p = dict(p)
        k -= p.pop(1, 0)
        if not p:
            return k <= 0
        if depth == 0:
            return False
        for f, c in list(st.flags.items()):
            if f[0] != 'ge' or not any(a in p and p[a] * x > 0 for a, x in f[1]):
                continue
            if self.prove(st, sub(p, dict(f[1])), k - c, depth - 1):
                return True
        return False

    def compare(self, st, term, truth):
        """Learns from a comparison; False if it cannot be."""
        t, v = term, truth
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = t[2], not v
        if t[0] != 'op' or len(t) != 4 or t[1] not in ('<', '=='):
            return None
        a, b = poly(t[2]), poly(t[3])
        if a is None or b is None:
            return None
        d = sub(b, a)
        if t[1] == '<':
            if self.prove(st, neg(d), 0) if v else self.prove(st, d, 1):
                return False
            self.learn(st, d if v else neg(d), 1 if v else 0)
        elif v:
            if self.prove(st, d, 1) or self.prove(st, neg(d), 1):
                return False
            self.learn(st, d, 0)
            self.learn(st, neg(d), 0)
        else:
            for x in (d, neg(d)):
                if self.prove(st, x, 0):
                    self.learn(st, x, 1)
        return None


class Reader(Facts):
    """A function that reads one line and decides about its end. Flags: ('L',) number of characters read for the line, ('at', p) character
    at a position, ('ne', p, c), ('wr', p) character written, ('tv', t) text a string stands for: number of characters of the line that it
    lacks at the end and characters added."""
    VISIT = True
    LINE = ('L', 'at', 'ne', 'wr', 'tv', 'ends', 'hash', 'cr', 'eof', 'atend', 'nul', 'cont', 'content')

    def __init__(self, prog, rep, bounds):
        Facts.__init__(self, prog, rep)
        self.bounds = bounds        # what holds in each loop: {(loop, template): k}

    def ck(self, st, fr, node, c, rule, key, msg):
        self.said.append((c, 'C31.' + rule, fr, node, key, msg, st.copy() if not c else st))

    def inline(self, eng, fn):
        return fn.cls == NS + 'MakefileLineReader' or (fn.cls is None and fn.file == self.root.file)

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.rootfr = fr
            st.heap[('f', THIS, BUF)] = ('sym', 'buffer')
            size = ('sym', 'size')
            st.heap[('f', THIS, SIZE)] = size
            st.flags[('alloc',)] = freeze({size: 1})
            if fr.fn.short.split('::')[-1] == 'MakefileLineReader':
                del st.flags[('alloc',)]
            self.learn(st, {size: 1}, 64)
            for p in fr.fn.d['params']:
                if p['ty'].replace('const ', '') in ('size_t', 'unsigned long', 'unsigned int', 'uint', 'quint32', 'quint64', 'std::size_t'):
                    self.learn(st, {('p', fr.fn.key, p['n']): 1}, 0)
            st.flags[('bal',)] = 0

    # ------------------------------------------------------------ the buffer
    def size(self, st):
        return poly(cur(st, THIS, SIZE[len(NS):]))

    def buffer(self, st):
        return cur(st, THIS, BUF[len(NS):])

    def offset(self, st, t):
        """Offset in the buffer of a pointer, 'old' for a pointer to the buffer before it was moved, None for something else."""
        p = poly(t)
        if p is None:
            return None
        b = strip_old(self.buffer(st))
        if p.get(b) == 1:
            p = dict(p)
            del p[b]
            return p
        if any(a != 1 and (a == ('f', THIS, BUF) or a == ('sym', 'buffer') or resname(a) in ('realloc', 'malloc') or a[0] == 'r' and a[3] == 'buffer') for a in p):
            return 'old'
        return None

    def visit(self, eng, st, fr, n):
        if n.op == 'loopiter':
            return
        for e in (n.a, n.b):
            if not isinstance(e, dict):
                continue
            for x in direct(e):
                if x.get('k') == 'sub':
                    a, i = eng.ev(fr, st, x['a'], n), eng.ev(fr, st, x['b'], n)
                    self.touch(st, fr, n, ('op', '+', a, i), {1: 1}, 'element %s' % show(i)[:60])

    def touch(self, st, fr, node, ptr, length, what):
        """length characters from ptr on are read or written."""
        o = self.offset(st, ptr)
        if o is None:
            return
        if o == 'old':
            self.ck(st, fr, node, False, 'buffer', what, 'the buffer is used where it was before it grew (%s)' % what)
            return
        al = st.flags.get(('alloc',))
        ok = al is not None and self.prove(st, o, 0) and self.prove(st, sub(dict(al), padd(o, length)), 0)
        self.ck(st, fr, node, ok, 'buffer', what, 'the place in the line buffer may be outside of it (%s)' % what)

    # ------------------------------------------------------------ loops
    def vars(self, eng, st, fr, lid):
        ids = []
        for n in assigned_in(fr.fn, lid):
            l = eng.lv(fr, st, n.a, n) if n.a.get('k') == 'var' else None
            if l is not None and l[0] == 'loc':
                k = ('v', l[1], l[2])
                v = st.env.get(k)
                if k not in ids and v is not None and self.offset(st, v) is None and v[0] not in ('ref', 'obj', 'dflt', 'list') and ('tv', v) not in st.flags:
                    ids.append(k)
        return ids

    def widen(self, eng, st, fr, lid, back):
        num = number(fr.fn, lid)
        keys = self.vars(eng, st, fr, lid)
        sz = ('r', fr.id, num, 'size')
        syms = [(k, st.env[k], ('r', fr.id, num, 'at%s' % k[2])) for k in keys]
        syms.append((None, cur(st, THIS, SIZE[len(NS):]), sz))
        # which bounds hold now
        held = {}
        ps = {}
        for k, v, s in syms:
            ps[s] = poly(v) if v is not None else None
        for s, p in ps.items():
            if p is None:
                continue
            for low in (64, 2, 1, 0):
                if self.prove(st, p, low):
                    held[(s, 'low')] = low
                    break
            if s != sz:
                for room in (3, 2, 1, 0):
                    if self.prove(st, sub(ps[sz], p), room):
                        held[(s, 'room')] = room
                        break
        have = self.bounds.get(num)
        if have is None:
            self.bounds[num] = held
        else:
            new = {t: min(k, held[t]) for t, k in have.items() if t in held}
            if new != have:
                self.bounds[num] = new
                self.changed = True
        al = st.flags.get(('alloc',))
        # what is known about positions stays known, in terms of the new symbols
        conv = [(p, s) for s, p in ps.items() if p is not None and not (len(p) <= 1 and const(p) is not None)]

        def move(q):
            q = dict(q)
            if const(q) is not None:
                return freeze(q)
            for p, s in conv:
                c = const(sub(q, p))
                if c is not None:
                    return freeze({s: 1, 1: c} if c else {s: 1})
            return None

        new = {}
        for f, v in list(st.flags.items()):
            if f[0] in ('at', 'ne', 'wr'):
                m = move(f[1])
                if m is not None:
                    new[(f[0], m) + f[2:]] = v
                del st.flags[f]
            elif f[0] == 'L':
                m = move(v)
                if m is not None:
                    new[f] = m
                del st.flags[f]
            elif f[0] == 'ge':
                del st.flags[f]
        st.flags.update(new)
        for k, v, s in syms:
            if k is not None:
                st.env[k] = s
        st.heap[('f', THIS, SIZE)] = sz
        b = self.buffer(st)
        nb = ('r', fr.id, num, 'buffer')
        if b != nb:
            for k, v in list(st.env.items()):
                if isinstance(v, tuple) and contains(v, b):
                    st.env[k] = replace(v, b, nb)
            st.heap[('f', THIS, BUF)] = nb
        if al is not None:
            st.flags[('alloc',)] = freeze({sz: 1}) if const(sub(dict(al), ps[sz])) == 0 else freeze({('sym', 'unknown'): 1})
        for (s, t), k in self.bounds[num].items():
            self.learn(st, {s: 1} if t == 'low' else {sz: 1, s: -1}, k)
        for t in [t for t in st.facts if any(contains(t, s) for _, _, s in syms)]:
            del st.facts[t]
        for l in [l for l in st.heap if l[0] == 'elem']:
            del st.heap[l]

    def loop(self, eng, st, fr, node, what, lid):
        num = number(fr.fn, lid)
        done = ('in', num)
        if what == 'iter':
            if done not in st.flags:
                st.flags[done] = 1
                self.widen(eng, st, fr, lid, False)
        else:
            self.widen(eng, st, fr, lid, True)

    # ------------------------------------------------------------ reading
    def start(self, st, fr, node):
        """A line begins. The one before must have been a comment."""
        if ('L',) in st.flags:
            self.ck(st, fr, node, st.flags.get(('hash',)) == 1, 'comment', 'a line is only dropped if it is a comment', 'a line that is no comment may be dropped')
            # the comment has been read to its end
            self.whole(st, fr, node)
        for f in [f for f in st.flags if f[0] in self.LINE]:
            del st.flags[f]
        for l in [l for l in st.heap if l[0] == 'elem']:
            del st.heap[l]
        st.flags[('bal',)] = max(-1, st.flags.get(('bal',), 0) - 1)

    def whole(self, st, fr, node):
        """End of the text of the line that was read, None if that is unknown."""
        if ('str',) in st.flags:
            return None
        L = st.flags.get(('L',))
        if L is None:
            return None
        L = dict(L)
        last = freeze(sub(L, {1: 1}))
        if st.flags.get(('at', last)) == NL:
            self.ck(st, fr, node, ('cr',) not in st.flags, 'whole', 'a line end that was read in two parts is recognised', 'a carriage return may stay in front of the line end if the two are read separately')
            return sub(L, {1: 1})
        if ('nul',) in st.flags:
            return 'error'
        ok = ('ne', last, NL) in st.flags and ('atend',) in st.flags
        self.ck(st, fr, node, ok, 'whole', 'a line is read up to its end', 'reading of a line may stop before its end')
        return L if ok else None

    def call(self, eng, st, fr, node, ci):
        short = ci.short
        if ci.name in ('QIODevice::readLine', 'QFileDevice::readLineData', 'QIODevice::read') and len(ci.args) >= 2:
            o = self.offset(st, ci.args[0])
            if o is None or o == 'old':
                self.ck(st, fr, node, False, 'buffer', 'the file is read into the line buffer', 'the file is read into something else than the line buffer')
                return None
            if const(o) == 0:
                self.start(st, fr, node)
            else:
                L = st.flags.get(('L',))
                self.ck(st, fr, node, L is not None and const(sub(dict(L), o)) == 0, 'whole', 'the rest of a line is appended', 'the rest of a line is not put behind what was read of it')
                if L is not None:
                    last = freeze(sub(dict(L), {1: 1}))
                    self.ck(st, fr, node, ('ne', last, NL) in st.flags, 'whole', 'only a line without end is continued', 'the next line may be read into this one')
            m = poly(ci.args[1])
            self.touch(st, fr, node, ci.args[0], m, 'reading up to %s characters' % show(ci.args[1])[:60])
            self.ck(st, fr, node, self.prove(st, m, 2), 'buffer', 'there is room for a character', 'there may be no room for a character, the rest of the line is lost')
        elif ci.name == 'realloc' and ci.args:
            o = self.offset(st, ci.args[0])
            self.ck(st, fr, node, o is not None and o != 'old' and const(o) == 0, 'buffer', 'the line buffer is moved as a whole', 'something else than the line buffer is enlarged')
            al = st.flags.get(('alloc',))
            n = poly(ci.args[1])
            self.ck(st, fr, node, al is not None and n is not None and self.prove(st, sub(n, dict(al)), 0), 'buffer', 'the line buffer does not shrink', 'the line buffer may shrink')
        elif ci.name == 'QTextStream::readLine':
            self.start(st, fr, node)
        elif ci.name == 'free' and self.offset(st, ci.args[0]) not in (None,):
            self.ck(st, fr, node, fr.fn.short.split('::')[-1].startswith('~'), 'buffer', 'the buffer is freed by the destructor', 'the line buffer is freed here')
        if ci.rloc is not None or ci.recv is not None:
            rep = self.rep_of(st, ci.recv)
            if rep is not None and short in ('chop', 'remove', 'truncate', 'resize', 'append', 'push_back', 'operator+=', 'replace', 'clear', 'prepend', 'insert'):
                st.flags[('pending',)] = self.change(st, rep, short, ci) or 'unknown'
        return None

    def after(self, eng, st, fr, node, ci, res):
        if ci.name in ('QIODevice::readLine', 'QIODevice::read') and len(ci.args) >= 2 and res is not None:
            o = self.offset(st, ci.args[0])
            if o is None or o == 'old':
                return
            self.purge(st, res)
            p = poly(res)
            self.learn(st, {res: 1}, -1)
            self.learn(st, sub(sub(poly(ci.args[1]), {1: 1}), p), 0)
            st.flags.pop(('atend',), None)
            st.flags[('n', res)] = freeze(o)
        elif ci.name == 'realloc':
            n = poly(ci.args[1])
            st.flags[('moved',)] = freeze(n) if n is not None else None
        elif ci.name == 'malloc':
            n = poly(ci.args[0])
            st.flags[('moved',)] = freeze(n) if n is not None else None
        elif ci.name == 'QTextStream::readLine':
            self.purge(st, res)
            st.flags[('tv', res)] = (0, ())
            st.flags[('L',)] = freeze({('size', res): 1})
            st.flags[('str',)] = 1
        elif ci.name in ('QString::fromLatin1', 'QString::fromLocal8Bit', 'QString::fromUtf8') and len(ci.args) == 2 and not isinstance(self.offset(st, ci.args[0]), (str, type(None))):
            st.flags[('new',)] = self.converted(st, fr, node, self.offset(st, ci.args[0]), poly(ci.args[1]))
            self.ck(st, fr, node, ci.name == 'QString::fromLatin1', 'whole', 'each byte stands for one character', 'bytes are not converted one by one')
        elif ('pending',) in st.flags:
            rep = st.flags.pop(('pending',))
            v = st.env.get(('v', ci.rloc[1], ci.rloc[2])) if ci.rloc is not None and ci.rloc[0] == 'loc' else st.heap.get(ci.rloc) if ci.rloc is not None else None
            if v is not None:
                self.purge(st, v)
                st.flags[('tv', v)] = rep
            if ci.rloc is not None and ci.rloc[0] == 'f' and ci.rloc[2] == CONTENT:
                st.flags[('content',)] = rep

    def purge(self, st, sym):
        """A symbol gets a new meaning."""
        for f in list(st.flags):
            if f[0] in ('ge', 'at', 'ne', 'wr') and any(a == sym for a, _ in f[1]) or f[0] in ('tv', 'n') and f[1] == sym or f[0] == 'ends' and contains(f[1], sym):
                del st.flags[f]
        for t in [t for t in st.facts if contains(t, sym)]:
            del st.facts[t]

    # ------------------------------------------------------------ texts
    def converted(self, st, fr, node, o, n):
        """Text of n characters of the buffer from o on."""
        E = self.whole(st, fr, node)
        if E == 'error':
            return 'error'
        if E is None or n is None or const(o) != 0:
            self.ck(st, fr, node, E is None, 'whole', 'the text starts with the line', 'the text does not start with the line')
            return 'unknown'
        a = const(sub(E, n))
        if a is None:
            return 'unknown'
        wr = {}
        for f, c in st.flags.items():
            if f[0] == 'wr':
                k = const(sub(E, dict(f[1])))
                if k is None:
                    return 'unknown'
                if k > a:
                    wr[k] = c
        top = max([a] + list(wr))
        if a < 0 or top > 3:
            return 'unknown'
        st.flags[('E',)] = freeze(E)
        return top, tuple(wr.get(k, ('ch', k)) for k in range(top, a, -1))

    def rep_of(self, st, t):
        if t is None:
            return None
        if ('tv', t) in st.flags:
            return st.flags[('tv', t)]
        t = strip_old(t)
        if ('tv', t) in st.flags:
            return st.flags[('tv', t)]
        if t[0] == 'm' and t[2] is not None:
            r = self.rep_of(st, t[2])
            n = callname(t)
            if r is not None and r not in ('unknown', 'error') and n in ('left', 'chopped', 'mid') and t[3]:
                if n == 'chopped' and t[3][0][0] == 'c':
                    return self.cut(r, t[3][0][1])
                if n == 'left' or n == 'mid' and len(t[3]) > 1 and t[3][0] == ('c', 0):
                    k = const(sub({('size', strip_old(t[2])): 1}, poly(t[3][-1]) or {'?': 1}))
                    if k is not None and k >= 0:
                        return self.cut(r, k)
                return 'unknown'
            if r is not None and n in ('left', 'mid', 'trimmed', 'simplified', 'right'):
                return 'unknown'
        return None

    def cut(self, rep, k):
        a, s = rep
        s = list(s)
        while k > 0:
            if s:
                s.pop()
            else:
                a += 1
            k -= 1
        return a, tuple(s)

    def change(self, st, rep, short, ci):
        if rep in ('unknown', 'error'):
            return rep
        args = ci.args
        size = ('size', strip_old(ci.recv))
        if short == 'chop' and args and args[0][0] == 'c':
            return self.cut(rep, args[0][1])
        if short in ('truncate', 'resize') and args:
            k = const(sub({size: 1}, poly(args[0]) or {'?': 1}))
            return self.cut(rep, k) if k is not None and k >= 0 else None
        if short == 'remove' and len(args) == 2 and args[1][0] == 'c':
            k = const(sub({size: 1}, poly(args[0]) or {'?': 1}))
            n = args[1][1]
            if k is None or k > 3 or n > k:
                return None
            a, s = rep
            s = list(s)
            while len(s) < k:
                a += 1
                s.insert(0, ('ch', a))
            i = len(s) - k
            return a, tuple(s[:i] + s[i + n:])
        if short in ('append', 'push_back', 'operator+=') and args and args[0][0] == 'c':
            return rep[0], tuple(rep[1]) + (args[0][1],)
        return None

    def chars(self, rep, scn):
        """Last characters of a text in a scenario: list for the last two of the line, None if something else is cut off."""
        n, c1, c2 = scn
        a, s = rep
        known = [c for c in (c2, c1)][2 - n:]
        if a > len(known):
            return None
        out = known[:len(known) - a]
        for c in s:
            if isinstance(c, tuple):
                if c[1] > len(known):
                    return None
                c = known[len(known) - c[1]]
            out.append(c)
        return out

    # ------------------------------------------------------------ conditions
    def branch(self, eng, st, fr, node, term, truth):
        t, v = strip_old(term), truth
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = strip_old(t[2]), not v
        if t[0] == 'op' and t[1] == '==' and len(t) == 4:
            c, x = (t[2], strip_old(t[3])) if t[2][0] == 'c' else (t[3], strip_old(t[2]))
            if c[0] == 'c' and x[0] == 'elem':
                o = self.offset(st, ('op', '+', x[1], x[2]))
                if o is not None and o != 'old':
                    return self.char(st, freeze(o), c[1], v)
                return None
        if t[0] == 'r' and resname(t) == 'atEnd':
            if v:
                st.flags[('atend',)] = 1
            else:
                st.flags.pop(('atend',), None)
            return None
        if t[0] == 'm' and callname(t) in ('startsWith', 'endsWith', 'isNull', 'isEmpty'):
            r = self.rep_of(st, t[2])
            if r is None:
                return None
            n = callname(t)
            if n == 'startsWith' and r[0] == 0 and t[3] and self.suffix(t[3][0]) == [HASH]:
                st.flags[('hash',)] = 1 if v else 0
            elif n == 'isNull':
                if r == (0, ()):
                    st.flags[('eof',)] = 1 if v else 0
            elif n == 'endsWith':
                st.flags[('ends', t)] = (r, tuple(self.suffix(t[3][0]) or ()), v)
            elif n == 'isEmpty':
                st.flags[('ends', t)] = (r, None, v)
            return None
        r = self.compare(st, term, truth)
        if r is False:
            return False
        # was anything read?
        for f, o in [(f, o) for f, o in st.flags.items() if f[0] == 'n']:
            got = self.prove(st, {f[1]: 1}, 1)
            none = self.prove(st, {f[1]: -1}, 0)
            if got:
                st.flags[('L',)] = freeze(padd(dict(o), {f[1]: 1}))
                del st.flags[f]
                if const(dict(o)) != 0:
                    st.flags[('cr',)] = 1
            elif none:
                del st.flags[f]
                if const(dict(o)) == 0:
                    st.flags[('eof',)] = 1
                else:
                    st.flags[('nul',)] = 1
        return None

    def suffix(self, t):
        t = strip_old(t)
        if t[0] == 's':
            return [ord(c) for c in t[1]]
        if t[0] == 'c':
            return [t[1]]
        return None

    def char(self, st, p, c, v):
        """Is the character at a position known to be c?"""
        if ('wr', p) in st.flags:
            w = st.flags[('wr', p)]
            return False if w is not None and (w == c) != v else None
        if ('at', p) in st.flags:
            if (st.flags[('at', p)] == c) != v:
                return False
        elif v and ('ne', p, c) in st.flags:
            return False
        if v:
            st.flags[('at', p)] = c
        else:
            st.flags[('ne', p, c)] = 1
        o = const(dict(p))
        if o == 0:
            if c == HASH:
                st.flags[('hash',)] = 1 if v else 0
            elif v:
                st.flags[('hash',)] = 0
        L = st.flags.get(('L',))
        if L is not None and ('cr',) in st.flags:
            k = const(sub(dict(L), dict(p)))
            if k == 1 and (not v and c == NL or v and c != NL):
                del st.flags[('cr',)]
            elif k == 2 and (not v and c == CR or v and c != CR):
                del st.flags[('cr',)]
        return None

    def write(self, eng, st, fr, node, loc, val, op):
        if loc[0] == 'elem':
            o = self.offset(st, ('op', '+', loc[1], loc[2]))
            if o is None or o == 'old':
                return
            p = freeze(o)
            L = st.flags.get(('L',))
            k = const(sub(dict(L), o)) if L is not None else None
            at = st.flags.get(('at', p))
            if k == 2 and at == CR and val == ('c', NL) and ('cr',) in st.flags and st.flags.get(('at', freeze(sub(dict(L), {1: 1})))) == NL:
                # the carriage return in front of the line end is dropped
                del st.flags[('cr',)]
                st.flags[('L',)] = freeze(sub(dict(L), {1: 1}))
                st.flags[('at', p)] = NL
            elif k is None or k > 1 or (k == 1 and at != NL):
                if k is None and L is None:
                    return
                st.flags[('wr', p)] = val[1] if val is not None and val[0] == 'c' else None
            return
        if loc[0] == 'f' and loc[1] == THIS:
            if loc[2] == NUM:
                p = sub(poly(val) or {'?': 1}, poly(cur(st, THIS, NUM[len(NS):])) or {}) if val is not None else None
                st.flags[('bal',)] = min(2, st.flags.get(('bal',), 0) + 1)
                one = op in ('++', 'post++') or p is not None and const(p) == 1 or op == '+='
                self.ck(st, fr, node, one or op == 'init', 'number', 'the number of the line grows by one', 'the number of the line does not grow by one')
            elif loc[2] == BUF:
                if op == 'init':
                    return
                self.ck(st, fr, node, ('moved',) in st.flags and resname(val) in ('realloc', 'malloc'), 'buffer', 'the buffer is what was allocated', 'the line buffer is replaced by something else')
                n = st.flags.pop(('moved',), None)
                if n is not None:
                    st.flags[('alloc',)] = n
            return
        if loc[0] == 'f' and loc[2] == CONTENT:
            r = st.flags.pop(('new',), None) or self.rep_of(st, val)
            st.flags[('content',)] = r if r is not None else 'unknown'
            return
        if loc[0] == 'f' and loc[2] == CONT:
            st.flags[('cont',)] = val
            return
        if loc[0] == 'loc' and ('new',) in st.flags:
            st.flags[('sv', loc[1], loc[2])] = st.flags.pop(('new',))

    # ------------------------------------------------------------ the line
    def ret(self, eng, st, fr, node, val):
        if fr.parent is None:
            st.flags[('retv',)] = val

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        al = st.flags.get(('alloc',))
        if self.root.short.split('::')[-1].startswith('~'):
            return
        if ('moved',) in st.flags:
            self.ck(st, fr, node, False, 'buffer', 'the enlarged buffer is kept', 'the address of the enlarged buffer is lost')
        ok = al is not None and const(sub(dict(al), self.size(st))) is not None and const(sub(dict(al), self.size(st))) >= 0
        self.ck(st, fr, node, ok, 'buffer', 'the size of the buffer is what was allocated', 'the size of the line buffer is not what was allocated')
        if ('MakefileLine' in (self.root.d.get('ret') or '')) or self.isline:
            self.deliver(st, fr, node, st.flags.get(('retv',), val))

    isline = False

    def deliver(self, st, fr, node, val):
        content, cont = st.flags.get(('content',)), st.flags.get(('cont',), ('c', 0))
        v = strip_old(val) if val is not None else None
        if v is not None and v[0] == 'list':
            if len(v[1]) > 0:
                content = self.rep_of(st, v[1][0]) if strip_old(v[1][0])[0] != 'dflt' else None
                if content is None and ('new',) in st.flags:
                    content = st.flags[('new',)]
            cont = v[1][1] if len(v[1]) > 1 else ('c', 0)
        elif v is not None and v[0] == 'dflt':
            content = None
        if content is None:
            if st.flags.get(('eof',)) == 1 and ('L',) in st.flags and ('str',) not in st.flags:
                self.ck(st, fr, node, False, 'whole', '', 'a line that was read is lost')
            self.ck(st, fr, node, st.flags.get(('eof',)) == 1, 'whole', 'there is always a line but at the end of the file', 'a line that was read is not passed on')
            return
        if content == 'error' or st.flags.get(('nul',)):
            return
        if st.flags.get(('eof',)) == 1 and content == (0, ()):
            return
        self.ck(st, fr, node, st.flags.get(('hash',)) == 0, 'comment', 'comments are dropped', 'a comment may be passed on as a line')
        self.ck(st, fr, node, st.flags.get(('bal',)) == 0, 'number', 'each line is counted', 'the number of the line is not the number of lines read')
        if content == 'unknown' or cont[0] != 'c':
            self.ck(st, fr, node, False, 'ends', 'the text of the line is known', 'it is unknown which part of the line is passed on')
            return
        for scn in scenarios():
            if self.possible(st, scn):
                want = table(*scn)
                got = self.chars(content, scn), cont[1]
                name = ''.join(chr(c) if c != 120 else 'x' for c in (scn[2], scn[1]) if c)
                self.ck(st, fr, node, got == want, 'ends', "line end '%s'" % name,
                        "a line that %s '%s' is not treated as documented: %s, continuation %d" % ('ends with' if scn[0] > 1 else 'is', name, ''.join(map(chr, got[0])) if got[0] is not None else 'other text is lost', got[1]))

    def possible(self, st, scn):
        n, c1, c2 = scn
        if ('str',) in st.flags:
            for f, x in st.flags.items():
                if f[0] != 'ends':
                    continue
                r, suf, v = x
                if r in ('unknown', 'error'):
                    continue
                have = self.chars(r, scn)
                if have is None:
                    continue
                if suf is None:
                    ok = (not have and n < 2) == v
                elif len(suf) <= len(have):
                    ok = (have[len(have) - len(suf):] == list(suf)) == v
                elif n < 2:
                    ok = not v
                else:
                    ok = True
                if not ok:
                    return False
            return True
        E = dict(st.flags.get(('E',), ()))
        for f, x in st.flags.items():
            if f[0] == 'ge':
                p = dict(f[1])
                c = const(sub(p, E))
                if c is not None and n < 2 and n < x - c:
                    return False
                c = const(padd(p, E))
                if c is not None and n > c - x:
                    return False
            elif f[0] in ('at', 'ne'):
                p = dict(f[1])
                k = const(sub(E, p))
                o = const(p)
                if k is None and o is not None and n < 2:
                    k = n - o
                if k is None:
                    continue
                if n < 2 and k > n:
                    return False
                have = {0: NL, 1: c1, 2: c2}.get(k)
                if k == 0 and ('ne', f[1], NL) in st.flags:
                    continue
                if have is None:
                    continue
                if f[0] == 'at' and have != x or f[0] == 'ne' and have == f[2]:
                    return False
        return True


def direct(e):
    """Expressions evaluated by a node itself: parts that are only evaluated on a condition have nodes of their own."""
    todo = [e]
    while todo:
        x = todo.pop()
        if isinstance(x, list):
            todo.extend(x)
        elif isinstance(x, dict):
            if x.get('k') == 'cond' or x.get('k') == 'bin' and x.get('op') in ('&&', '||'):
                continue
            yield x
            todo.extend(v for v in x.values() if isinstance(v, (dict, list)))


def replace(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(replace(x, a, b) for x in t)
    return t


def fixpoint(prog, rep, mon, fn, **kw):
    """Repeats the analysis until the invariants of the loops are inductive."""
    for i in range(12):
        mon.changed = False
        mon.said = []
        eng = Engine(prog, mon, **kw)
        eng.run(fn)
        if not mon.changed:
            break
    else:
        raise AnalysisError('%s: no invariant found' % fn.short)
    rep.absorb(eng, fn.short)
    for x in mon.said:
        rep.check(*x)


@check('C31')
def c31(prog, rep):
    rep.rule('C31.buffer', 'The line buffer is only used within its size: every index and every pair of pointer and length passed on is proven to lie within what was '
             'allocated, from an inductive invariant of each loop in linear arithmetic; an address from before a reallocation is not used; the size '
             'recorded is the one allocated.')
    rep.rule('C31.whole', 'A line is read up to its line end or the end of the file, each part behind the part before, and its text is passed on without loss; '
             'a carriage return in front of a line end is dropped also if the two are read separately.')
    rep.rule('C31.comment', 'A line that starts with # is dropped, another one never.')
    rep.rule('C31.number', 'The line number grows by one with each line read.')
    rep.rule('C31.ends', 'Text and continuation of each line are those of the table of line ends, for the last two characters of the line and every length.')
    opts = dict(steps='all', limit=60, inline=())
    for name in ('MakefileLineReader', 'growLineBuffer', 'readLine_impl_local8bit', 'readLine_impl_unicode'):
        for f in prog.fns(RD + name):
            mon = Reader(prog, rep, {})
            mon.root = f
            mon.isline = name.startswith('readLine')
            fixpoint(prog, rep, mon, f, **opts)
    c31files(prog, rep)


# ---------------------------------------------------------------- opening and raw lines
class Open(Rule):
    """The encoding decides about the reader of lines."""
    BOMS = {(0xff, 0xfe): 'UTF-16', (0xef, 0xbb, 0xbf): 'UTF-8'}

    def inline(self, eng, fn):
        return fn.cls == NS + 'MakefileLineReader' and fn is not self.root

    def bom(self, st):
        """The byte order mark this path knows of: name, '' for none, None if unknown."""
        r = ''
        for k, name in self.BOMS.items():
            x = st.flags.get(('bom', k))
            if x:
                return name
            if x is None:
                r = None
        return r

    def call(self, eng, st, fr, node, ci):
        if ci.name in ('QFile::open', 'QIODevice::open'):
            st.flags[('mode',)] = 1 if any(t in (('c', 16), ('c', 17)) for a in ci.args for t in subterms(a)) else 0
        elif ci.name == 'QTextStream::setCodec':
            a = strip_old(ci.args[0])
            st.flags[('codec',)] = a[1] if a[0] == 's' else None
        elif ci.name == 'QTextStream::setDevice':
            st.flags[('device',)] = 1
        elif ci.short in ('read', 'readLine', 'readAll', 'seek', 'skip') and ci.rloc is not None and ci.rloc[0] == 'f' and ci.rloc[2] == RD + 'm_file':
            st.flags[('moved',)] = 1
        return None

    def branch(self, eng, st, fr, node, term, truth):
        t, v = strip_old(term), truth
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = strip_old(t[2]), not v
        if resname(t) == 'open' or t[0] == 'm' and callname(t) == 'isOpen':
            st.flags[('open',)] = v
        if t[0] == 'm' and callname(t) == 'startsWith' and t[3] and strip_old(t[3][0])[0] == 's':
            k = tuple(ord(c) & 255 for c in strip_old(t[3][0])[1])
            if k in self.BOMS:
                if v and any(st.flags.get(('bom', o)) for o in self.BOMS if o != k):
                    return False
                st.flags[('bom', k)] = v

    def write(self, eng, st, fr, node, loc, val, op):
        if loc[0] == 'f' and loc[2] == RD + 'm_readLineImpl' and val is not None:
            st.flags[('impl',)] = val[1].split('::')[-1].split('(')[0] if val[0] == 'fn' else None

    def ret(self, eng, st, fr, node, val):
        if fr.parent is not None:
            return
        t = st.truth(val) if val is not None else None
        opened = st.flags.get(('open',))
        ck = lambda c, key, msg: self.rep.check(c, 'C31.open', fr, node, key, msg, st)
        ck(opened is not None and t == opened, 'the result tells whether the file was opened', 'the result does not tell whether the file was opened')
        if not opened:
            return
        b = self.bom(st)
        if b is None and st.flags.get(('impl',)) == 'readLine_impl_local8bit' and ('device',) not in st.flags:
            ck(False, 'byte order mark', 'a file may be read byte by byte although it starts with a byte order mark')
            return
        ck(st.flags.get(('mode',)) == 1, 'line ends are translated', 'the file is not opened as text')
        ck(('moved',) not in st.flags, 'the file is read from its start', 'the start of the file is skipped')
        if b == '':
            ck(st.flags.get(('impl',)) == 'readLine_impl_local8bit' and ('device',) not in st.flags, 'files without byte order mark are read byte by byte', 'a file without byte order mark is not read byte by byte')
        else:
            ck(st.flags.get(('impl',)) == 'readLine_impl_unicode' and ('device',) in st.flags and st.flags.get(('codec',)) == b and b is not None,
               'files with byte order mark are decoded (%s)' % b, 'a file with byte order mark is not decoded as %s' % b)


class Raw(Rule):
    """readLine(inline mode)."""

    def inline(self, eng, fn):
        return fn.cls == NS + 'MakefileLineReader' and not fn.short.split('::')[-1].startswith('readLine_impl') and fn is not self.root

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.par = ('p', fr.fn.key, fr.fn.d['params'][0]['n'])

    def call(self, eng, st, fr, node, ci):
        ck = lambda c, key, msg: self.rep.check(c, 'C31.raw', fr, node, key, msg, st)
        if ci.name in ('QTextStream::readLine', 'QIODevice::readLine'):
            ck(('got',) not in st.flags, 'one line is read', 'more than one line is read')
            ck(st.truth(self.par) is True, 'raw lines in inline files only', 'a raw line is read outside of inline files')
            st.flags[('got',)] = 'stream' if ci.name == 'QTextStream::readLine' else 'file'
            d = st.flags.get(('dev',))
            ck(d is not None and d == (ci.name == 'QTextStream::readLine'), 'the line comes from where lines are read', 'a raw line is read from the file although the text stream reads ahead, or the other way round')
        elif ci.recv is not None and ci.short in ('append', 'operator+=', 'push_back') and ci.args and ci.args[0] == ('c', NL):
            st.flags[('nl',)] = 1
        elif not ci.name or any(t.short.split('::')[-1].startswith('readLine_impl') for t in ci.targets or ()):
            ck(st.truth(self.par) is False and ('impl',) not in st.flags, 'other lines by the reader for the encoding', 'the reader for the encoding is used in inline files or twice')
            st.flags[('impl',)] = 1
        return None

    def branch(self, eng, st, fr, node, term, truth):
        t, v = strip_old(term), truth
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = strip_old(t[2]), not v
        if t[0] == 'op' and t[1] == '==' and ('c', 0) in t[2:]:
            t, v = strip_old([x for x in t[2:] if x != ('c', 0)][0]), not v
        if resname(t) == 'device' or t[0] == 'm' and callname(t) == 'device':
            st.flags[('dev',)] = v
        if t[0] == 'm' and callname(t) == 'isNull':
            st.flags[('null',)] = v

    def write(self, eng, st, fr, node, loc, val, op):
        if loc[0] == 'f' and loc[2] == NUM:
            st.flags[('num',)] = min(2, st.flags.get(('num',), 0) + 1)

    def ret(self, eng, st, fr, node, val):
        if fr.parent is not None:
            return
        g = st.flags.get
        ck = lambda c, key, msg: self.rep.check(c, 'C31.raw', fr, node, key, msg, st)
        if st.truth(self.par) is True:
            ck(g(('got',)) is not None, 'a line is read', 'no line is read in inline files')
            ck(g(('num',)) == 1, 'raw lines are counted', 'a raw line is not counted once')
            if g(('got',)) == 'stream':
                ck(g(('null',)) is not None and (g(('nl',)) == 1) == (g(('null',)) is False), 'line end of raw lines', 'a raw line lacks its line end, or the end of the file gets one')
            v = strip_old(val) if val is not None else None
            cont = v[1][1] if v is not None and v[0] == 'list' and len(v[1]) > 1 else ('c', 0)
            ck(cont == ('c', 0), 'raw lines are complete', 'a raw line is continued')
        else:
            ck(('impl',) in st.flags and ('num',) not in st.flags, 'lines of makefiles come from the reader for the encoding', 'lines of makefiles are not read by the reader for the encoding')


# ---------------------------------------------------------------- the files
PP = NS + 'Preprocessor::'


def isfield(t, name):
    return t is not None and any(x[0] == 'f' and x[2] == name for x in subterms(t) if isinstance(x, tuple) and len(x) > 2)


class Basic(Rule):
    """The next line: lines put back, then the innermost file."""

    def inline(self, eng, fn):
        return fn is not self.root and fn.cls == NS + 'Preprocessor' and fn.short.split('::')[-1] not in ('error', 'parsePreprocessingDirective')

    def on(self, ci, field):
        return any(t is not None and t[0] == 'f' and t[2] == PP + field for t in (ci.rloc, strip_old(ci.recv) if ci.recv is not None else None))

    def ck(self, st, fr, node, c, key, msg):
        self.rep.check(c, 'C31.files', fr, node, key, msg, st)

    def size(self, st, field):
        return st.vs(('size', cur(st, THIS, 'Preprocessor::' + field)))

    def empty(self, st, field):
        return st.truth(('op', '==', ('c', 0), ('size', cur(st, THIS, 'Preprocessor::' + field))))

    def call(self, eng, st, fr, node, ci):
        if self.on(ci, 'm_linesPutBack'):
            if ci.short in ('takeFirst', 'takeLast', 'takeAt', 'removeFirst', 'removeLast', 'clear', 'pop_front', 'pop_back'):
                self.ck(st, fr, node, self.empty(st, 'm_linesPutBack') is False, 'lines put back are taken', 'a line may be taken from an empty list')
                self.ck(st, fr, node, ci.short in ('takeFirst', 'removeFirst', 'pop_front'), 'lines put back are taken in order', 'lines that were put back are not taken in their order')
                st.flags[('back',)] = st.flags.get(('back',), 0) + 1
            elif ci.short in ('append', 'prepend', 'push_back', 'insert', 'push_front', 'operator<<', 'operator+='):
                self.ck(st, fr, node, False, '', 'reading a line puts lines back')
        if self.on(ci, 'm_fileStack'):
            if ci.short in ('top', 'pop', 'last', 'removeLast', 'takeLast'):
                self.ck(st, fr, node, self.empty(st, 'm_fileStack') is False, 'there is a file (%s)' % ci.short, 'the stack of files may be empty (%s)' % ci.short)
            if ci.short in ('pop', 'removeLast', 'takeLast', 'clear', 'resize'):
                self.ck(st, fr, node, st.flags.get(('read',)) == 'null', 'a file is left at its end', 'a file is left before its end')
                self.ck(st, fr, node, ('deleted',) in st.flags, 'the reader of a file is deleted', 'the reader of a file is never deleted')
                st.flags[('read',)] = 'none'
                st.flags.pop(('deleted',), None)
            if ci.short in ('first', 'at', 'bottom', 'operator[]', 'constFirst', 'front'):
                self.ck(st, fr, node, False, '', 'a line is not read from the innermost file')
        if ci.has('MakefileLineReader::readLine'):
            self.ck(st, fr, node, st.flags.get(('read',), 'none') == 'none', 'a line that was read is passed on', 'a line that was read from the file may be lost')
            self.ck(st, fr, node, self.empty(st, 'm_linesPutBack') is True, 'lines put back come first', 'a line is read from the file although lines were put back')
            self.ck(st, fr, node, isfield(ci.recv, PP + 'm_fileStack') or resname(ci.recv) == 'top', 'lines come from the innermost file', 'a line is not read from the innermost file')
            self.ck(st, fr, node, bool(ci.args) and isfield(ci.args[0], PP + 'm_bInlineFileMode'), 'raw lines in inline files', 'the reader does not know whether the line is in an inline file')
        if ci.name == 'delete':
            self.ck(st, fr, node, st.flags.get(('read',)) == 'null', 'the reader is deleted at the end of the file', 'the reader is deleted before the end of the file')
            st.flags[('deleted',)] = 1
        return None

    def after(self, eng, st, fr, node, ci, res):
        if ci.has('MakefileLineReader::readLine'):
            st.flags[('read',)] = 'new'
            st.flags[('val',)] = res
            for t in [t for t in st.facts if contains(t, res)]:
                del st.facts[t]

    def branch(self, eng, st, fr, node, term, truth):
        t, v = strip_old(term), truth
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = strip_old(t[2]), not v
        if t[0] == 'm' and callname(t) in ('isNull', 'isEmpty') and isfield(t[2], CONTENT) and st.flags.get(('read',)) in ('new', 'line', 'null'):
            if callname(t) == 'isNull':
                if (v and st.flags[('read',)] == 'line') or (not v and st.flags[('read',)] == 'null'):
                    return False
                st.flags[('read',)] = 'null' if v else 'line'

    def ret(self, eng, st, fr, node, val):
        if fr.parent is not None:
            return
        v = strip_old(val) if val is not None else None
        rd = st.flags.get(('read',), 'none')
        if st.flags.get(('back',)):
            first = v is not None and v[0] == 'list' and bool(v[1]) and any(isinstance(x, tuple) and (x[0] == 'elem' or resname(x) == 'takeFirst') for x in subterms(v[1][0])) or v is not None and contains(v, ('s', 'first'))
            self.ck(st, fr, node, st.flags[('back',)] == 1 and rd == 'none' and first, 'the line put back is passed on', 'the line that was put back is lost')
        elif rd in ('new', 'line'):
            ok = v == st.flags.get(('val',)) or v is not None and v[0] == 'list' and bool(v[1]) and contains(v[1][0], st.flags.get(('val',)))
            self.ck(st, fr, node, rd == 'line' and ok, 'the line that was read is passed on', 'the line that was read is lost, or the end of an included file ends the makefile')
        else:
            self.ck(st, fr, node, self.empty(st, 'm_fileStack') is True, 'the end is that of the outermost file', 'reading ends although there are files left')
            self.ck(st, fr, node, self.empty(st, 'm_linesPutBack') is True, 'lines put back come first', 'reading ends although lines were put back')


# ---------------------------------------------------------------- joining
class Join(Rule):
    """Joins a line with the one after it. Flags ('app',) pieces that were appended."""
    WANT = {}

    def inline(self, eng, fn):
        return fn is not self.root and fn.file == self.root.file and any('MakefileLine' in p['ty'] for p in fn.d['params'])

    def ck(self, st, fr, node, c, key, msg):
        self.rep.check(c, 'C31.join', fr, node, key, msg, st)

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.par = [('p', fr.fn.key, p['n']) for p in fr.fn.d['params']]
            st.flags[('app',)] = ()

    def piece(self, t):
        t = strip_old(t)
        if t[0] == 'c':
            return (t[1],)
        if t[0] == 's':
            return tuple(ord(c) for c in t[1])
        if t == ('f', self.par[1], CONTENT):
            return ('next',)
        if t[0] == 'op' and t[1] == '+' and len(t) == 4:
            return self.piece(t[2]) + self.piece(t[3])
        if t[0] == 'f' and t[2] == CONTENT and strip_old(t[1]) == self.par[0]:
            return ('line',)
        args = t[3] if t[0] == 'm' and len(t) > 3 else ()
        if t[0] == 'm' and callname(t) == 'operator+':
            return tuple(x for a in ((t[2],) if t[2] is not None else ()) + tuple(args) for x in self.piece(a))
        if contains(t, ('f', self.par[1], CONTENT)) or resname(t) in self.trims or t[0] == 'm' and callname(t) in self.trims:
            n = resname(t) or (callname(t) if t[0] == 'm' else None)
            if n in self.trims:
                return ('trimmed',)
        return ('?',)

    def call(self, eng, st, fr, node, ci):
        if ci.rloc is not None and ci.rloc[0] == 'f' and ci.rloc[2] == CONTENT and strip_old(ci.rloc[1]) == self.par[0] and not ci.e.get('const'):
            if ci.short in ('operator+=', 'append', 'push_back') and ci.args:
                st.flags[('app',)] = st.flags[('app',)] + self.piece(ci.args[0])
            elif ci.short not in ('reserve', 'detach', 'operator='):
                st.flags[('app',)] = st.flags[('app',)] + ('?',)
        for t in ci.targets or ():
            if t.short.split('::')[-1] in self.trims:
                ok = any(contains(a, ('f', self.par[1], CONTENT)) for a in ci.args)
                self.ck(st, fr, node, ok, 'blanks at the start of the next line are dropped', 'something else than the next line loses its blanks')
        return None

    def branch(self, eng, st, fr, node, term, truth):
        t, v = strip_old(term), truth
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = strip_old(t[2]), not v
        if ('cont',) not in st.flags and t[0] == 'op' and t[1] == '==' and len(t) == 4:
            c, x = (t[2], t[3]) if t[2][0] == 'c' else (t[3], t[2])
            if c[0] == 'c' and strip_old(x) == ('f', self.par[0], CONT):
                if v and st.flags.get(('is', c[1])) is False or v and any(st.flags.get(('is', o)) for o in (0, 1, 2) if o != c[1]):
                    return False
                st.flags[('is', c[1])] = v
        return None

    def write(self, eng, st, fr, node, loc, val, op):
        if loc[0] == 'f' and strip_old(loc[1]) == self.par[0]:
            if loc[2] == CONTENT and op not in ('call',) and val is not None and strip_old(val)[0] in ('op', 'm'):
                p = self.piece(val)
                st.flags[('app',)] = p[1:] if p[:1] == ('line',) and not st.flags[('app',)] else ('?',)
            elif loc[2] == CONT:
                st.flags[('cont',)] = val

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        c = ('f', self.par[0], CONT)
        nxt = ('f', self.par[1], CONT)
        got = st.flags.get(('cont',))
        self.ck(st, fr, node, got is not None and strip_old(got) == nxt, 'the continuation is that of the next line', 'the continuation of the joined line is not that of the line that was appended')
        for k, name in ((1, 'a backslash'), (2, 'a caret')):
            if st.flags.get(('is', k)) is False or any(st.flags.get(('is', o)) for o in (0, 1, 2) if o != k):
                continue
            self.ck(st, fr, node, st.flags[('app',)] == self.want[k], 'behind %s' % name, 'behind %s the lines are not joined as documented: %s' % (
                name, ', '.join(repr(chr(p)) if isinstance(p, int) else p for p in st.flags[('app',)])))


class Complete(Rule):
    """Joins lines until the line is complete."""

    def inline(self, eng, fn):
        return False

    def ck(self, st, fr, node, c, key, msg):
        self.rep.check(c, 'C31.join', fr, node, key, msg, st)

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.par = [('p', fr.fn.key, p['n']) for p in fr.fn.d['params']]

    def call(self, eng, st, fr, node, ci):
        if ci.has('Preprocessor::basicReadLine'):
            self.ck(st, fr, node, st.flags.get(('got',), 'used') in ('used',), 'the line that was read is joined', 'a line that was read is lost')
            self.ck(st, fr, node, st.flags.get(('inc',)) == 1, 'lines are read while the line is incomplete', 'the line after a complete line is read')
        elif not ci.name and len(ci.args) == 2 and not ci.targets or ci.has('Preprocessor::joinLines') or ci.has('Preprocessor::joinPreprocessingDirectiveLines'):
            ok = len(ci.args) == 2 and strip_old(ci.args[1]) == strip_old(st.flags.get(('val',), ('c', 0))) and ci.alocs and ci.alocs[0] is not None
            self.ck(st, fr, node, ok and st.flags.get(('got',)) == 'line', 'the line that was read is joined', 'something else than the line that was read is joined, or the end of the file is joined')
            st.flags[('got',)] = 'used'
            st.flags.pop(('inc',), None)
            st.flags.pop(('done',), None)
        return None

    def after(self, eng, st, fr, node, ci, res):
        if ci.has('Preprocessor::basicReadLine'):
            st.flags[('got',)] = 'new'
            st.flags[('val',)] = res
            for t in [t for t in st.facts if contains(t, res)]:
                del st.facts[t]

    def branch(self, eng, st, fr, node, term, truth):
        t, v = strip_old(term), truth
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = strip_old(t[2]), not v
        if (t[0] == 'm' or t[0] == 'r') and (callname(t) if t[0] == 'm' else resname(t)) == 'isComplete' or t[0] == 'op' and t[1] == '==' and isfield(t, CONT) and ('c', 0) in t[2:] \
                or t[0] == 'f' and t[2] == CONT:
            if t[0] == 'f':
                v = not v
            if not v and ('end',) in st.flags:
                return False
            if not v:
                st.flags[('inc',)] = 1
                st.flags.pop(('done',), None)
            else:
                st.flags[('done',)] = 1
                st.flags.pop(('inc',), None)
        if t[0] == 'm' and callname(t) == 'isNull' and st.flags.get(('got',)) in ('new', 'line', 'null'):
            st.flags[('got',)] = 'null' if v else 'line'

    def write(self, eng, st, fr, node, loc, val, op):
        if loc[0] == 'f' and loc[2] == CONT and strip_old(loc[1]) == self.par[0]:
            self.ck(st, fr, node, val == ('c', 0) and st.flags.get(('got',)) == 'null', 'a line ends at the end of the file', 'a continued line is declared complete before the end of the file')
            st.flags[('done',)] = st.flags[('end',)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            self.ck(st, fr, node, ('done',) in st.flags, 'the line is complete', 'the line may be incomplete')
            self.ck(st, fr, node, st.flags.get(('got',), 'used') in ('used', 'null'), 'the line that was read is joined', 'a line that was read is lost')


class Lines(Rule):
    """Preprocessor::readLine: each line that is read becomes part of a directive, a macro definition or a line for the parser."""

    def inline(self, eng, fn):
        return False

    def ck(self, st, fr, node, c, key, msg):
        self.rep.check(c, 'C31.lines', fr, node, key, msg, st)

    def enter(self, eng, st, fr):
        st.flags[('line',)] = 'none'
        st.flags[('next',)] = 'used'
        self.lines = set()

    def which(self, st, loc, val):
        """'line' or 'next' for a content or a line."""
        objs = []
        for t in (loc, val):
            if t is None:
                continue
            t = strip_old(t)
            objs.append(t)
            if t[0] == 'f' and t[2] == CONTENT:
                objs.append(strip_old(t[1]))
        r = set()
        for name in ('next', 'line'):
            l = st.flags.get((name + 'loc',))
            if l is None:
                continue
            v = st.env.get(('v', l[1], l[2]))
            if l in objs or v is not None and strip_old(v) in objs:
                r.add(name)
        if len(r) == 2:
            return 'line' if st.flags[('next',)] == 'used' else 'next'
        return r.pop() if r else None

    def after(self, eng, st, fr, node, ci, res):
        if ci.has('Preprocessor::basicReadLine'):
            st.flags[('next',)] = 'new'
            st.flags[('val',)] = res
            st.flags.pop(('nextloc',), None)
            for t in [t for t in st.facts if contains(t, res)]:
                del st.facts[t]

    def call(self, eng, st, fr, node, ci):
        g = st.flags.get
        if ci.has('Preprocessor::basicReadLine'):
            self.ck(st, fr, node, g(('next',)) == 'used', 'each line is used', 'a line that was read is lost')
            self.ck(st, fr, node, g(('line',)) in ('none', 'incomplete'), 'each line is used', 'a complete line may be lost')
        elif ci.has('Preprocessor::joinLines') and len(ci.alocs) == 2:
            self.ck(st, fr, node, g(('next',)) == 'plain' and self.which(st, ci.alocs[1], ci.args[1]) == 'next', 'the next line is appended', 'something else than the next line is appended, or a directive is')
            self.ck(st, fr, node, g(('line',)) == 'incomplete', 'lines that are continued are joined', 'a complete line is joined with the next one')
            st.flags[('next',)] = 'used'
            st.flags[('line',)] = 'has'
        elif ci.has('Preprocessor::completePreprocessingDirectiveLine'):
            self.ck(st, fr, node, self.which(st, ci.alocs[0], ci.args[0]) == 'next' and g(('next',)) == 'dir', 'directives are completed', 'something else than a directive is completed as one')
            st.flags[('next',)] = 'full'
        elif ci.has('Preprocessor::parsePreprocessingDirective'):
            w = self.which(st, ci.alocs[0], ci.args[0])
            if w == 'next' and g(('next',)) != 'used':
                self.ck(st, fr, node, g(('next',)) == 'full', 'directives are complete', 'a directive is parsed before it is complete')
                st.flags[('next',)] = 'used'
            else:
                self.ck(st, fr, node, w == 'line' and g(('line',)) in ('complete', 'nomacro'), 'complete lines', 'a line is parsed as a directive before it is complete')
                st.flags[('asked',)] = 'dir'
        elif ci.has('Preprocessor::parseMacro'):
            self.ck(st, fr, node, self.which(st, ci.alocs[0], ci.args[0]) == 'line' and g(('line',)) == 'complete', 'complete lines', 'a line is parsed as a macro definition before it is complete')
            self.ck(st, fr, node, st.truth(('f', THIS, PP + 'm_bInlineFileMode')) is False, 'inline files define no macros', 'a line of an inline file may be taken for a macro definition')
            st.flags[('asked',)] = 'macro'
        return None

    def branch(self, eng, st, fr, node, term, truth):
        t, v = strip_old(term), truth
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = strip_old(t[2]), not v
        n = callname(t) if t[0] == 'm' else resname(t) if t[0] == 'r' else None
        if n == 'startsWith' and t[3] and t[3][0] == ('c', 33) and st.flags[('next',)] in ('new', 'dir', 'plain'):
            st.flags[('next',)] = 'dir' if v else 'plain'
        elif n == 'isComplete' or t[0] == 'op' and t[1] == '==' and isfield(t, CONT) and ('c', 0) in t[2:]:
            l = st.flags[('line',)]
            if l == 'none' and not v or l == 'incomplete' and v or l in ('complete', 'nomacro') and not v:
                return False
            if l == 'has':
                st.flags[('line',)] = 'complete' if v else 'incomplete'
        elif n == 'parseMacro' and st.flags.pop(('asked',), None) == 'macro':
            st.flags[('line',)] = 'none' if v else 'nomacro'
        elif n == 'parsePreprocessingDirective' and st.flags.pop(('asked',), None) == 'dir':
            st.flags[('line',)] = 'none' if v else st.flags[('line',)]
            if not v:
                st.flags[('nodir',)] = 1

    def write(self, eng, st, fr, node, loc, val, op):
        if loc[0] != 'loc' or val is None:
            return
        v = strip_old(val)
        if v == st.flags.get(('val',)):
            if ('nextloc',) not in st.flags:
                st.flags[('nextloc',)] = loc
                return
            self.ck(st, fr, node, st.flags[('next',)] == 'plain', 'lines that are no directives', 'a directive may be taken for an ordinary line')
            self.ck(st, fr, node, st.flags[('line',)] == 'none', 'each line is used', 'a line is replaced by the next one before it is used, or is incomplete')
            st.flags[('next',)] = 'used'
            st.flags[('line',)] = 'has'
            st.flags[('lineloc',)] = loc
            st.flags.pop(('nodir',), None)
        elif op == 'decl' and v[0] in ('obj', 'dflt') and NS + 'MakefileLine' in v:
            st.flags[('lineloc',)] = loc

    def ret(self, eng, st, fr, node, val):
        inl = st.truth(('f', THIS, PP + 'm_bInlineFileMode'))
        g = st.flags.get
        self.ck(st, fr, node, g(('line',)) == 'nomacro' or g(('line',)) == 'complete' and inl is True, 'macro definitions are not passed on',
                'a line is passed on although it is incomplete, used or may be a macro definition')
        self.ck(st, fr, node, g(('nodir',)) == 1 and g(('next',)) == 'used', 'directives are not passed on', 'a directive may be passed on, or a line is lost')
        self.ck(st, fr, node, val is not None and self.which(st, None, val) == 'line', 'the line is passed on', 'something else than the line is passed on')


class Trim(Text):
    """Drops blanks at the start of a string."""
    BOUNDS = 'C31.join'

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.root = fr
            self.texts = {('p', fr.fn.key, fr.fn.d['params'][0]['n'])}
            self.str = list(self.texts)[0]

    def ck(self, st, fr, node, c, key, msg):
        self.rep.check(c, 'C31.join', fr, node, key, msg, st)

    def first(self, eng, st, fr, node, lid, vals):
        self.ck(st, fr, node, list(vals.values()) == [('c', 0)], 'blanks are looked for from the start', 'blanks are not looked for from the start')
        self.syms = {('r', fr.id, number(fr.fn, lid), 'at%s' % k[2]) for k in vals}

    def call(self, eng, st, fr, node, ci):
        self.look(eng, st, fr, node, ci)
        return None

    def branch(self, eng, st, fr, node, term, truth):
        self.known(st, term, truth)
        t, v = strip_old(term), truth
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = strip_old(t[2]), not v
        if t[0] == 'op' and t[1] == '==' and v:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if strip_old(a) == ('size', self.str):
                    p = self.pos(b)
                    if p is not None:
                        st.flags[('ge', p[0])] = min(p[1], st.flags.get(('ge', p[0]), p[1]))
        if t[0] == 'm' and callname(t) == 'isSpace':
            x = strip_old(t[2])
            if x[0] == 'elem' and self.text(x[1]):
                st.flags[('sp', self.pos(x[2]))] = v

    def done(self, eng, st, fr, node, lid):
        for s in self.syms:
            v = st.env.get([k for k in st.env if k[0] == 'v' and 'at%s' % k[2] == s[3]][0]) if any(k[0] == 'v' and 'at%s' % k[2] == s[3] for k in st.env) else None
            # before or after the increment
            ok = st.flags.get(('sp', (s, 0))) is True and v is not None and (v == s or self.pos(v) == (s, 1))
            self.ck(st, fr, node, ok, 'only blanks are skipped, one by one', 'something else than a blank is skipped, or more than one character at once')

    def widen(self, eng, st, fr, lid):
        for f in [f for f in st.flags if f[0] == 'sp']:
            p = f[1]
            v = st.flags.pop(f)
            for k in self.loopvars(eng, st, fr, lid):
                s = ('r', fr.id, number(fr.fn, lid), 'at%s' % k[2])
                if st.env.get(k) != s and self.pos(st.env.get(k) or ('c', -1)) == p:
                    st.flags[('sp', (s, 0))] = v
        Text.widen(self, eng, st, fr, lid)

    def ret(self, eng, st, fr, node, val):
        if fr.parent is not None:
            return
        v = strip_old(val)
        if v == self.str:
            zero = st.truth(('op', '==', ('c', 0), ('size', self.str)))
            self.ck(st, fr, node, zero is True or st.flags.get(('sp', (None, 0))) is False, 'a text without blanks stays', 'blanks at the start of a text may stay')
            return
        p = self.pos(v[3][0]) if v[0] == 'm' and callname(v) == 'mid' and strip_old(v[2]) == self.str and tuple(v[3][1:]) in ((), (('c', -1),)) else \
            self.pos(('op', '-', ('size', self.str), v[3][0])) if v[0] == 'm' and callname(v) == 'right' and len(v[3]) == 1 else None
        if p is None:
            self.ck(st, fr, node, False, 'blanks are cut off', 'something else than the text without the blanks is the result')
            return
        ok = st.flags.get(('sp', p)) is False or self.beyond(st, p[0], p[1]) or p == (None, 0) and st.truth(('op', '==', ('c', 0), ('size', self.str))) is True
        self.ck(st, fr, node, ok and (p == (None, 0) or p[0] in getattr(self, 'syms', ()) and p[1] in (0, 1)), 'all blanks are cut off', 'blanks at the start may stay, or text is lost')


def trims(prog):
    """Functions that make a text of a text (candidates for dropping blanks)."""
    return [f for f in prog.fns(NS + 'leftTrimmed') or []]


def c31files(prog, rep):
    rep.rule('C31.open', 'A file that starts with a byte order mark is decoded, another one read byte by byte; the mark is only looked at.')
    rep.rule('C31.raw', 'Lines of inline files are passed on unchanged and counted; they come from where the other lines are read.')
    rep.rule('C31.files', 'Lines put back come first, in order; then lines of the innermost file, which is left at its end and only then; the end is that of the outermost file.')
    rep.rule('C31.join', 'A continued line is joined with the lines after it until it is complete: behind a backslash with a blank, behind a caret with a line break, '
             'without blanks at the start of the next line; in directives without blank or with a caret, all else kept.')
    rep.rule('C31.lines', 'Each line that is read becomes part of a directive, or of a line that is a macro definition or passed on when it is complete; none is lost or used twice.')
    o = dict(steps='all', limit=200)
    for cls, names in ((Open, [RD + 'open']), (Raw, [RD + 'readLine']), (Basic, [PP + 'basicReadLine']), (Lines, [PP + 'readLine']), (Complete, [PP + 'completeLineImpl'])):
        for n in names:
            for f in prog.fns(n):
                mon = cls(prog, rep)
                mon.root = f
                run_roots(prog, rep, mon, [f], **dict(o, noinline=('readLine_impl_local8bit', 'readLine_impl_unicode')))
    tr = trims(prog)
    for f in tr:
        mon = Trim(prog, rep)
        run_roots(prog, rep, mon, [f], **dict(o, heapkeep=()))
    for n, want in (('joinLines', {1: (32, 'trimmed'), 2: (NL, 'trimmed')}), ('joinPreprocessingDirectiveLines', {1: ('next',), 2: (CARET, 'next')})):
        for f in prog.fns(PP + n):
            mon = Join(prog, rep)
            mon.root = f
            mon.want = want
            mon.trims = {t.short.split('::')[-1] for t in tr}
            run_roots(prog, rep, mon, [f], **o)
    # who joins how
    for n, want in (('completeLine', 'joinLines'), ('completePreprocessingDirectiveLine', 'joinPreprocessingDirectiveLines')):
        for f in prog.fns(PP + n):
            used = {x['f'].split('::')[-1] if isinstance(x.get('f'), str) else '' for nd in f.cfg.nodes for e in (nd.a, nd.b) if isinstance(e, dict) for x in walk(e)}
            used |= {x.get('n', '').split('::')[-1] for nd in f.cfg.nodes for e in (nd.a, nd.b) if isinstance(e, dict) for x in walk(e) if isinstance(x.get('n'), str)}
            rep.check(want in used and not ({'joinLines', 'joinPreprocessingDirectiveLines'} - {want}) & used, 'C31.join', Named(f), None, n, '%s joins lines the wrong way' % n, None)


class Named(object):
    def __init__(self, fn):
        self.fn = fn
