"""C26: expansion of macros."""
from .common import *
from .registry import check
from .process import poly, peq, padd, freeze
from .macros import Site

MT = NS + 'MacroTable::'
FILEMACROS = {ord(c) for c in '<*@?'}
ORDINARY = 'ordinary'


def assigned_in(fn, lid):
    """Nodes of a function that assign, within a loop."""
    cfg = fn.cfg
    memo = getattr(cfg, 'assigned', None)
    if memo is None:
        memo = cfg.assigned = {}
    if lid not in memo:
        nodes = []
        inner = {lid}
        grown = True
        while grown:        # loops inside of this one
            grown = False
            for n in cfg.nodes:
                if n.op == 'loopiter' and n.a not in inner and n.loop in inner and n.loop != n.a:
                    inner.add(n.a)
                    grown = True
        for n in cfg.nodes:
            if n.op == 'assign' and n.loop in inner and goes_on(cfg, n, lid):
                nodes.append(n)
        memo[lid] = nodes
    return memo[lid]


def behind(cfg, n):
    """Nodes reached from a node without passing the head of its loop."""
    seen, todo = set(), [n.id]
    while todo:
        x = todo.pop()
        if x in seen or x is None or cfg.nodes[x].op in ('loophead', 'febind') and cfg.nodes[x].a == n.loop:
            continue
        seen.add(x)
        todo.extend(cfg.nodes[x].succ)
    return seen


def goes_on(cfg, n, lid):
    """Does another iteration of the loop follow this node?"""
    seen, todo = {n.id}, [n]
    while todo:
        m = todo.pop()
        if m.op in ('loopback', 'loophead', 'febind', 'loopiter') and m.a == lid:
            return True
        for x in m.succ:
            if x is not None and x not in seen:
                seen.add(x)
                todo.append(cfg.nodes[x])
    return False


NUMBERS = {}


def number(fn, lid):
    """The number of a loop, different in each function."""
    return -1 - lid - 100 * NUMBERS.setdefault(fn.key, len(NUMBERS))


class Text(Rule):
    """Follows positions in a string: for the value x of each variable changed by a loop a symbol, for each position that is looked at
    what is known about it: flags ('lt', base) = k when base + k < size, ('at', base, k) = character, ('ne', base, k, c)."""

    NOT = (36, 40, 64, 94)
    BOOLS = False

    def text(self, t):
        t = strip_old(t)
        return t in self.texts

    def pos(self, t):
        """(base, offset) of a position, base None for constants."""
        p = poly(t)
        if p is None:
            return None
        p = dict(p)
        k = p.pop(1, 0)
        if not p:
            return None, k
        if len(p) == 1 and list(p.values()) == [1]:
            return list(p)[0], k
        return tuple(sorted(p.items(), key=repr)), k

    def loopvars(self, eng, st, fr, lid):
        """Keys of the variables changed by the iterations of a loop."""
        ids = []
        for n in assigned_in(fr.fn, lid):
            l = eng.lv(fr, st, n.a, n) if n.a.get('k') == 'var' and (self.BOOLS or n.a.get('t') != 'b' and n.a.get('ty') != 'bool') else None
            if l is not None and l[0] == 'loc':
                k = ('v', l[1], l[2])
                if k not in ids:
                    ids.append(k)
        return ids

    def widen(self, eng, st, fr, lid):
        keys = self.loopvars(eng, st, fr, lid)
        old = {k: st.env.get(k) for k in keys}
        syms = {}
        for k in keys:
            if old[k] is not None:
                syms[k] = ('r', fr.id, number(fr.fn, lid), 'at%s' % (k[2],))
        gone = set(syms.values())
        new = {}
        for k, s in syms.items():
            v = old[k]
            if v == s:
                continue
            p = self.pos(v)
            lt = st.flags.get(('lt', p[0])) if p is not None else None
            if lt is not None and v not in gone and lt >= p[1]:
                new[('lt', s)] = lt - p[1]
        for f in [f for f in st.flags if f[0] in ('lt', 'at', 'ne', 'ge') and f[1] in gone]:
            del st.flags[f]
        for t in [t for t in st.facts if any(contains(t, s) for s in gone)]:
            del st.facts[t]
        for k, s in syms.items():
            st.env[k] = s
        st.flags.update(new)

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'iter':
            keys = self.loopvars(eng, st, fr, lid)
            syms = {k: ('r', fr.id, number(fr.fn, lid), 'at%s' % (k[2],)) for k in keys if st.env.get(k) is not None}
            if any(st.env[k] != x for k, x in syms.items()):
                if not any(contains(st.env[k], x) for k, x in syms.items()):
                    self.first(eng, st, fr, node, lid, {k: st.env.get(k) for k in keys})
                self.widen(eng, st, fr, lid)
            self.start(eng, st, fr, node, lid)
        else:
            self.done(eng, st, fr, node, lid)
            self.widen(eng, st, fr, lid)

    def first(self, eng, st, fr, node, lid, vals):
        pass

    def start(self, eng, st, fr, node, lid):
        pass

    def done(self, eng, st, fr, node, lid):
        pass

    def look(self, eng, st, fr, node, ci):
        """A position is looked at."""
        if ci.short in ('at', 'operator[]') and ci.recv is not None and self.text(ci.recv) and len(ci.args) == 1:
            p = self.pos(ci.args[0])
            if p is None:
                return
            ok = st.flags.get(('lt', p[0]), -1) >= p[1] or (p == (None, 0) and st.vs(('size', strip_old(ci.recv)))[0] not in (None, 0))
            self.rep.check(ok, self.BOUNDS, fr, node, 'position %s of the text' % show(ci.args[0])[:40], 'a position is looked at that may be behind the end of the text', st)

    def known(self, st, term, truth):
        """Records what a condition says about positions. Returns (base, offset, character, is it) or None."""
        t, v = term, truth
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = t[2], not v
        if t[0] != 'op' or len(t) != 4:
            return None
        if t[1] == '<':
            p = poly(('op', '-', t[3], t[2]))
            if p is None:
                return None
            sz = [a for a in p if isinstance(a, tuple) and a[0] == 'size' and self.text(a[1])]
            if len(sz) != 1:
                return None
            f = p.pop(sz[0])
            c = p.pop(1, 0)
            if f == 1:        # size - rest + c > 0
                rest = {a: -x for a, x in p.items()}
                k = -c
            elif f == -1:
                rest = p
                k, v = c - 1, not v
            else:
                return None
            if len(rest) > 1 or any(x != 1 for x in rest.values()):
                b = tuple(sorted(rest.items(), key=repr))
            else:
                b = list(rest)[0] if rest else None
            if v:
                st.flags[('lt', b)] = max(k, st.flags.get(('lt', b), k))
            else:
                st.flags[('ge', b)] = min(k, st.flags.get(('ge', b), k))
            return None
        if t[1] == '==':
            c, x = (t[2], t[3]) if t[2][0] == 'c' else (t[3], t[2])
            x = strip_old(x)
            if c[0] == 'c' and x[0] == 'elem' and self.text(x[1]):
                p = self.pos(x[2])
                if p is not None:
                    if v:
                        st.flags[('at', p[0], p[1])] = c[1]
                    elif ('at', p[0], p[1]) not in st.flags and c[1] in self.NOT and p[1] != 1:
                        st.flags[('ne', p[0], p[1], c[1])] = 1
                    return p[0], p[1], c[1], v
        return None

    def char(self, st, base, k):
        return st.flags.get(('at', base, k))

    def isnt(self, st, base, k, c):
        a = self.char(st, base, k)
        return (a is not None and a != c) or ('ne', base, k, c) in st.flags

    def beyond(self, st, base, k):
        g = st.flags.get(('ge', base))
        return g is not None and g <= k


class Expand(Text):
    BOUNDS = 'C26.bounds'

    def __init__(self, prog, rep, recursive):
        Text.__init__(self, prog, rep)
        self.recursive = recursive

    def enter(self, eng, st, fr):
        if fr.parent is not None:
            return
        ps = fr.fn.d['params']
        self.root = fr
        par = [('p', fr.fn.key, p['n']) for p in ps]
        self.texts = {par[i] for i, p in enumerate(ps) if p['ty'].startswith('const QString')}
        self.str = par[0]
        self.dep = [par[i] for i, p in enumerate(ps) if p['ty'] == 'bool']
        self.set = [(p['id'], p['n']) for p in ps if p['ty'].startswith('QSet<QString>')]
        self.result = set()
        self.pending = None
        for n in fr.fn.cfg.nodes:
            if n.op == 'retval' and n.a is not None:
                for x in walk(n.a):
                    if x.get('k') == 'var' and x.get('g') == 'local':
                        self.result.add(x['id'])
        if self.pair is not None:
            self.pending = tuple(('v', fr.id, i) for i in self.pair)

    # -------------------------------------------------------- one step through the text
    def ck(self, st, fr, node, cond, rule, key, msg):
        self.rep.check(cond, 'C26.' + rule, fr, node, key, msg, st)

    def isroot(self, fr, lid):
        return fr.parent is None and self.outer == lid

    outer = None
    pair = None

    def first(self, eng, st, fr, node, lid, vals):
        if fr.parent is None and (self.outer is None or self.outer == lid):
            self.outer = lid
            zero = [k for k, v in vals.items() if v == ('c', 0)]
            if self.pending and self.pending[0] in vals:
                self.ck(st, fr, node, vals[self.pending[0]] == ('c', -1), 'text', 'no text is pending at the start', 'text seems to be pending at the start')
                zero = [k for k in zero if k != self.pending[1]]
            self.ck(st, fr, node, bool(zero), 'text', 'the text is read from its start', 'the text is not read from its start')
            self.where = zero

    STEP = ('em', 'pend', 'colon', 'name', 'held', 'free', 'exp', 'sub', 'letter', 'nm', 'nmne', 'cne', 'dep', 'val', 'end', 'cyc', 'vloc')

    def start(self, eng, st, fr, node, lid):
        if not self.isroot(fr, lid):
            return
        self.i0 = None
        self.base = [('r', fr.id, number(fr.fn, lid), 'at%s' % k[2]) for k in self.where]
        for f in [f for f in st.flags if f[0] in self.STEP]:
            del st.flags[f]

    def here(self, st):
        """The symbol of the position of this step."""
        for b in self.base:
            if any(f[0] in ('at', 'ne') and f[1] == b and f[2] == 0 for f in st.flags):
                return b
        return self.base[0] if len(self.base) == 1 else None

    def call(self, eng, st, fr, node, ci):
        self.look(eng, st, fr, node, ci)
        g = st.flags.get
        short = ci.short
        if ci.recv is not None and self.isset(st, ci.rloc, ci.recv):
            if short == 'insert' and ci.args:
                self.ck(st, fr, node, ('free',) in st.flags, 'cycle', 'a macro is only entered if it is not being expanded', 'a macro may be entered although it is being expanded')
                st.flags[('held',)] = self.nameof(st, ci.args[0])
            elif short == 'remove' and ci.args:
                nm = self.nameof(st, ci.args[0])
                self.ck(st, fr, node, g(('held',)) == nm and nm in ('$(', '$x'), 'cycle', 'the macro that was entered is left', 'another macro is left than was entered')
                self.ck(st, fr, node, ('exp',) in st.flags, 'cycle', 'a macro is left when its value has been expanded', 'a macro is left before its value has been expanded')
                st.flags.pop(('held',), None)
                st.flags.pop(('free',), None)
            elif not ci.e.get('const') and short not in ('detach', 'reserve', 'contains'):
                self.ck(st, fr, node, False, 'cycle', '', 'the set of macros that are being expanded is changed (%s)' % short)
        if ci.has('MacroTable::macroValue') or (ci.has('MacroTable::value')):
            nm = self.nameof(st, ci.args[0])
            self.ck(st, fr, node, nm in ('$(', '$x'), 'name', 'the name of the macro is the text of the invocation up to its end or the colon', 'the name of the macro is not the one in the invocation')
            self.ck(st, fr, node, g(('held',)) == nm or ('free',) in st.flags, 'cycle', 'the value of a macro is only taken when it has been entered', 'the value of a macro is taken without entering it, a cycle is not found')
            st.flags[('name',)] = nm
            st.flags[('val',)] = 1
        if ci.targets and any(t in self.recursive for t in ci.targets):
            a = ci.args
            self.ck(st, fr, node, g(('held',)) is not None and g(('held',)) == g(('name',)), 'cycle', 'the value of a macro is only expanded when it has been entered',
                    'the value of a macro is expanded without entering it, a cycle is not found')
            self.ck(st, fr, node, any(resname(x) in ('macroValue', 'cycleCheckedMacroValue') for x in subterms(a[0])), 'value', 'the value of the macro is expanded', 'something else than the value of the macro is expanded')
            self.ck(st, fr, node, len(a) > 2 and self.isset(st, None, a[2]), 'cycle', 'the set of macros that are being expanded is passed on', 'the expansion of the value does not know the macros that are being expanded')
            self.ck(st, fr, node, len(a) > 1 and a[1] in self.dep, 'value', 'the kind of the line is passed on', 'the kind of the line is not passed on')
            st.flags[('exp',)] = 1
        if ci.has('MacroTable::parseSubstitutionStatement'):
            self.ck(st, fr, node, g(('colon',)) == 1, 'subst', 'a substitution needs a colon', 'a substitution is looked for although there is no colon')
            i = self.here(st)
            ok = self.text(ci.args[0]) and self.colon(st, self.pos(ci.args[1]), 1)
            self.ck(st, fr, node, ok, 'subst', 'the substitution starts behind the colon', 'the substitution does not start behind the colon')
            st.flags[('sub',)] = 1
        if ci.has('MacroTable::applySubstitution'):
            self.ck(st, fr, node, g(('sub',)) == 1 and ('exp',) in st.flags, 'subst', 'the substitution is applied to the expanded value', 'the substitution is not applied to the expanded value')
            st.flags[('sub',)] = 2
        if short in ('append', 'operator+=', 'operator<<', 'push_back', 'operator+') and ci.rloc is not None and ci.rloc[0] == 'loc' and ci.rloc[1] == self.root.id and ci.rloc[2] in self.result \
                and short != 'operator+':
            for k in [self.piece(st, fr, node, a, ci.args) for a in ci.args[:1]]:
                st.flags[('em',)] = g(('em',), ()) + (k,)
        return None

    def isset(self, st, loc, val):
        if loc is not None and loc[0] == 'loc':
            return (loc[2], loc[3]) in self.set and loc[1] == self.root.id
        for i, n in self.set:
            v = st.env.get(('v', self.root.id, i), ('p', self.root.fn.key, n))
            if val is not None and (val == v or val == ('p', self.root.fn.key, n)):
                return True
        return False

    def colon(self, st, p, k):
        """Is this position k behind the colon?"""
        if p is None:
            return False
        b, o = p
        return o == k and isinstance(b, tuple) and (self.char(st, b, 0) == 58 or self.role(b) == {58})

    def role(self, b):
        return self.roles.get(b[2:], set()) if isinstance(b, tuple) and len(b) == 4 and b[0] == 'r' else set()

    def nameof(self, st, t):
        """'$(' or '$x' if the term is the name of the macro that is invoked here."""
        t = strip_old(t)
        i = self.here(st)
        if i is None:
            return '?'
        if t[0] == 'elem' and self.text(t[1]) and self.pos(t[2]) == (i, 1):
            return '$x' if ('letter',) in st.flags else '?'
        if callname(t) in ('mid', 'midRef') and self.text(t[2]) and len(t[3]) == 2:
            a = self.pos(t[3][0])
            e = poly(('op', '+', t[3][0], t[3][1]))
            if a == (i, 2) and e is not None and len(e) == 1 and list(e.values()) == [1] and self.char(st, i, 1) == 40:
                b = list(e)[0]
                c = st.flags.get(('colon',))
                if c == 1 and self.colon(st, (b, 0), 0) or c == 0 and self.close(st, b):
                    return '$('
        return '?'

    def close(self, st, b):
        return self.char(st, b, 0) == 41 or self.role(b) == {41}

    def piece(self, st, fr, node, t, args):
        t = strip_old(t)
        i = self.here(st)
        if t[0] == 'g' and t[1].endswith('fileNameMacroMagicEscape'):
            return 'magic'
        if t[0] == 'c':
            return chr(t[1]) if 0 < t[1] < 128 else '?'
        if t[0] == 's':
            return t[1]
        if t[0] == 'elem' and self.text(t[1]) and i is not None:
            p = self.pos(t[2])
            if p is not None and p[0] == i:
                return 'c%d' % p[1]
        if callname(t) in ('mid', 'midRef') and self.text(t[2]) and len(t[3]) == 2:
            a, n = t[3]
            if self.pending and all(x[0] == 'r' and x[3] == 'at%s' % k[2] for x, k in zip((a, n), self.pending)):
                return 'pend'
            p = self.pos(a)
            e = poly(('op', '+', a, n))
            if p is not None and p[0] == i and e is not None:
                e = dict(e)
                k = e.pop(1, 0)
                if len(e) == 1 and list(e.values()) == [1] and self.close(st, list(e)[0]):
                    return 'c%d..)%+d' % (p[1], k)
            return 'text?'
        if any(resname(x) in ('expandMacros',) for x in subterms(t)) or (t[0] == 'r' and ('vloc',) in st.flags and t == st.env.get(st.flags[('vloc',)])):
            g = st.flags.get
            self.ck(st, fr, node, g(('exp',)) is not None, 'value', 'the expanded value is inserted', 'the value is inserted unexpanded')
            if g(('colon',)) == 1:
                self.ck(st, fr, node, g(('sub',)) == 2, 'subst', 'the substitution is made before the value is inserted', 'a value is inserted without its substitution')
            else:
                self.ck(st, fr, node, g(('sub',)) is None, 'subst', 'a value without substitution is inserted as it is', 'a value without substitution is changed')
            return 'value'
        return '?'

    def write(self, eng, st, fr, node, loc, val, op):
        if loc[0] == 'loc' and val is not None and resname(strip_old(val)) == 'expandMacros':
            st.flags[('vloc',)] = ('v', loc[1], loc[2])
        if loc[0] == 'loc' and val is not None and op == '=' and val[0] in ('r', 'op'):
            p = self.pos(val)
            if p is not None and self.char(st, p[0], p[1]) == 58:
                old = st.vs(eng.read(st, loc))
                self.ck(st, fr, node, old[1] is not None and old[1] < 0, 'name', 'the first colon ends the name', 'another colon than the first ends the name of the macro')
        return None

    def branch(self, eng, st, fr, node, term, truth):
        self.cur = fr.fn
        t, v = term, truth
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = t[2], not v
        r = self.known(st, t, v)
        if r is not None and r[1] == 1 and not r[3] and ('letter',) in st.flags:
            st.flags[('cne', r[2])] = 1
        s = strip_old(t)
        if callname(s) == 'isLetterOrNumber' and s[2][0] == 'elem':
            p = self.pos(s[2][2])
            if p is not None and p[1] == 1:
                st.flags[('letter',)] = int(v)
        if callname(s) == 'contains' and s[3] and self.isset(st, None, s[2]):
            nm = self.nameof(st, s[3][0])
            if v:
                st.flags[('cyc',)] = 1
            else:
                st.flags[('free',)] = 1
        if s in self.dep:
            st.flags[('dep',)] = int(v)
        if t[0] == 'op' and len(t) == 4 and t[1] == '==' and (t[2][0] == 'c') != (t[3][0] == 'c'):
            c, x = (t[2], t[3]) if t[2][0] == 'c' else (t[3], t[2])
            if c == ('c', -1) and self.pending and x == st.env.get(self.pending[0]):
                st.flags[('pend',)] = int(not v)
            if c == ('c', 0) and self.pending and x == st.env.get(self.pending[0]):
                st.flags[('whole',)] = int(v)
            x = strip_old(x)
            if x[0] == 'elem' and x[2] == ('c', 0) and callname(x[1]) in ('mid', 'midRef'):
                if v:
                    st.flags[('nm',)] = c[1]
                else:
                    st.flags[('nmne', c[1])] = 1
            if c == ('c', -1) and self.role(x):
                self.sign(st, node, x, int(not v))
        if t[0] == 'op' and len(t) == 4 and t[1] == '==' and self.pending and st.env.get(self.pending[1]) in (t[2], t[3]):
            st.flags[('full',)] = int(v and any(x == ('size', self.str) for x in (t[2], t[3])))
        if t[0] == 'op' and len(t) == 4 and t[1] == '<':
            if t[3] == ('c', 0):
                if self.pending and t[2] == st.env.get(self.pending[0]):
                    st.flags[('pend',)] = int(not v)
                self.sign(st, node, t[2], int(not v))
            if t[2] == ('c', -1):
                if self.pending and t[3] == st.env.get(self.pending[0]):
                    st.flags[('pend',)] = int(v)
                self.sign(st, node, t[3], int(v))
        if t[0] == 'op' and len(t) == 4 and t[1] == '==' and st.flags.get(('colon',)) == 1 and v:
            a, b = ({58} if self.role(x) == {58} else {41} if self.close(st, x) else set() for x in (t[2], t[3]))
            if a and b and a != b:
                return False      # the colon is not the parenthesis
        if t[0] == 'op' and len(t) == 4 and t[1] == '<' and st.flags.get(('colon',)) == 1:
            if self.role(t[2]) == {58} and self.close(st, t[3]) and not v or self.role(t[3]) == {58} and self.close(st, t[2]) and v:
                return False      # the colon is in front of the parenthesis
        if s == ('c', 0) and v or s == ('c', 1) and not v:
            return False
        return None

    def sign(self, st, node, x, v):
        """A position that is -1 until the character has been found."""
        if self.role(x) == {58} and ('colon',) not in st.flags and (node.loop is None or x[2] != number(self.cur, node.loop)):
            st.flags[('colon',)] = v

    # -------------------------------------------------------- the end of a step
    def done(self, eng, st, fr, node, lid):
        if self.isroot(fr, lid):
            self.step(eng, st, fr, node, lid)
            st.flags[('ran',)] = 1
            for f in [f for f in st.flags if f[0] in self.STEP or f[0] in ('lt', 'at', 'ne', 'ge')]:
                del st.flags[f]

    def step(self, eng, st, fr, node, lid):
        g = st.flags.get
        i = self.here(st)
        ck = lambda c, rule, key, msg: self.ck(st, fr, node, c, rule, key, msg)
        if i is None:
            ck(False, 'text', '', 'a step through the text looks at no character')
            return
        key = [k for k, b in zip(self.where, self.base) if b == i][0]
        i1 = self.pos(st.env.get(key))
        if i1 is not None:
            i1 = (i1[0], i1[1] + self.later(fr.fn, lid, key[2]))
        em = list(g(('em',), ()))
        plain = self.isnt(st, i, 0, 36) or self.char(st, i, 0) == 36 and self.beyond(st, i, 1)
        pend = g(('pend',))
        held = g(('held',))
        ck(held is None, 'cycle', 'each macro that is entered is left', 'a macro that was entered is not left')
        ck(('cyc',) not in st.flags, 'cycle', 'a cycle is an error', 'a cycle is not an error')
        S = L = None
        if self.pending:
            S, L = (st.env.get(k) for k in self.pending)
            S0, L0 = (('r', fr.id, number(fr.fn, lid), 'at%s' % k[2]) for k in self.pending)
        if plain:
            ck(i1 == (i, 1), 'text', 'plain text is taken character by character', 'plain text is not taken character by character')
            if self.pending:
                if pend == 0:
                    ck(S == i and L == ('c', 1), 'text', 'pending text starts at this character', 'pending text does not start at the first character that is not yet in the result')
                else:
                    ck(pend == 1 and S == S0 and peq(poly(L), padd(poly(L0), {1: 1})), 'text', 'pending text grows by this character', 'pending text does not grow by the character that is read')
                ck(em == [], 'text', 'pending text is not in the result', 'text is in the result and pending')
            else:
                ck(em == ['c0'], 'text', 'plain text is copied', 'plain text is not copied to the result as it is')
            return
        ck(self.char(st, i, 0) == 36, 'text', 'an invocation starts with a dollar sign', 'an invocation does not start with a dollar sign')
        if self.pending:
            ck(pend is not None, 'text', 'it is known whether text is pending', 'an invocation is expanded without looking whether text is pending')
            if pend == 1:
                ck(em[:1] == ['pend'], 'text', 'pending text comes before the value', 'pending text is lost or comes behind the value')
                em = em[1:]
            ck('pend' not in em, 'text', 'pending text is used once', 'pending text appears twice')
            ck(S is not None and (st.vs(S) == (-1, -1, ()) or S == ('c', -1) or pend == 0 and S == S0), 'text', 'no text is pending behind an invocation', 'text is used again behind an invocation')
        c = self.char(st, i, 1)
        em = tuple(em)
        if c == 40:
            if g(('name',)) is not None:
                ck(em == ('value',), 'value', '$(X) becomes the value', 'an invocation $(X) does not become the value')
                ck(all(('nmne', x) in st.flags for x in FILEMACROS), 'files', 'file name macros are kept', 'a file name macro is expanded like others')
            else:
                ck(em == ('magic', '(', 'c2..)+1') and g(('nm',)) in FILEMACROS, 'files', 'file name macros in parentheses are kept with a mark',
                   'a file name macro in parentheses is not kept with its mark')
            b = i1[0] if i1 else None
            ok = i1 is not None and i1[1] == 1 and b is not None and (self.close(st, b) or self.out(b, st))
            ck(ok, 'text', 'expansion continues behind the parenthesis', 'expansion does not continue behind the closing parenthesis')
        elif c == 36:
            j = 3 if self.char(st, i, 2) == 40 else 2
            if 'magic' in em:
                ck(g(('dep',)) == 1 and self.char(st, i, j) == 64, 'files', '$$@ is kept for dependents lines', '$$@ is kept where it is no file name macro')
                ck(em == (('magic', '@') if j == 2 else ('magic', '(', '@')), 'files', '$$@ is kept with its mark', '$$@ is not kept with its mark')
                ck(i1 == (i, j + 1), 'text', 'expansion continues behind $$@', 'expansion does not continue behind $$@')
            else:
                ck(em == ('$',), 'value', '$$ becomes $', 'two dollar signs do not become one')
                ck(i1 == (i, 2), 'text', 'expansion continues behind $$', 'expansion does not continue behind $$')
                ck(g(('dep',)) == 0 or self.isnt(st, i, j, 64) and (j == 3 or self.isnt(st, i, 2, 40)) or self.beyond(st, i, 2) or j == 3 and self.beyond(st, i, 3), 'files', '$$@ in a dependents line is a file name macro',
                   '$$@ in a dependents line is not kept as a file name macro')
        elif g(('name',)) == '$x' or 'value' in em:
            ck(em == ('value',) and g(('letter',)) == 1, 'value', '$X becomes the value', 'an invocation $X does not become the value')
            ck(i1 == (i, 2), 'text', 'expansion continues behind $X', 'expansion does not continue behind $X')
        else:
            ck(c in FILEMACROS and em == ('magic', 'c1'), 'files', 'file name macros are kept with a mark', 'something that is no macro is accepted, or a file name macro is not kept with its mark')
            ck(i1 == (i, 2), 'text', 'expansion continues behind $<', 'expansion does not continue behind $<')

    def later(self, fn, lid, var):
        """What a for loop adds to its variable behind the body."""
        inc = fn.cfg.loops[lid].inc
        for n in fn.cfg.nodes:
            if inc is not None and n.op == 'assign' and n.loop == lid and n.a.get('id') == var and n.c == '+=' and n.b.get('k') == 'int' and \
                    any(x.get('op') in ('++', 'p++', '+=') and any(y.get('id') == var for y in walk(x)) for x in walk(inc)):
                if not any(m.op == 'loopback' and m.a == lid and m.id in behind(fn.cfg, n) for m in fn.cfg.nodes):
                    return n.b['v']
        return 0

    def out(self, b, st):
        """The end found by parseSubstitutionStatement."""
        return st.flags.get(('sub',)) is not None and isinstance(b, tuple) and b[0] == 'r' and b[1] == self.root.id

    def ret(self, eng, st, fr, node, val):
        if fr.parent is not None or self.outer is None:
            return
        g = st.flags.get
        ck = lambda c, rule, key, msg: self.ck(st, fr, node, c, rule, key, msg)
        em = [e for e in g(('em',), ())]
        if strip_old(val) == self.str:
            ck(g(('whole',)) == 1 and g(('full',)) == 1 or g(('pend',)) is None, 'text', 'the text itself is the result only if all of it is plain', 'the text is returned although parts of it were expanded')
            return
        if self.pending:
            pend = g(('pend',))
            if pend is None and ('ran',) not in st.flags:
                pend = 0      # the initial value
            ck(pend == 0 and 'pend' not in em or pend == 1 and em[-1:] == ['pend'], 'text', 'pending text ends the result', 'pending text is lost at the end')

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'throw' and st.flags.get(('letter',)) == 0:
            self.ck(st, fr, node, all(('cne', c) in st.flags for c in FILEMACROS), 'files', 'only what is no file name macro is an error', 'a file name macro is an error')


class Subst(Text):
    """parseSubstitutionStatement: pieces of the text around the equals sign."""
    BOOLS = True
    BOUNDS = 'C26.bounds'

    def enter(self, eng, st, fr):
        if fr.parent is not None:
            return
        ps = fr.fn.d['params']
        self.root = fr
        par = [('p', fr.fn.key, p['n']) for p in ps]
        self.texts = {par[0]}
        self.start_ = par[1]
        self.seen = set()
        self.scan = {n.loop for n in fr.fn.cfg.nodes if n.op == 'call' and n.b.get('f') in ('QString::at', 'QString::operator[]')}

    def first(self, eng, st, fr, node, lid, vals):
        pass

    def start(self, eng, st, fr, node, lid):
        for f in [f for f in st.flags if f[0] in ('quote', 'left', 'before')]:
            del st.flags[f]

    def ck(self, st, fr, node, cond, key, msg):
        self.rep.check(cond, 'C26.pieces', fr, node, key, msg, st)

    def role(self, b):
        return self.roles.get(b[2:], set()) if isinstance(b, tuple) and len(b) == 4 and b[0] == 'r' else set()

    def mid(self, st, t):
        t = strip_old(t)
        if callname(t) not in ('mid', 'midRef') or not self.text(t[2]) or len(t[3]) != 2:
            return None
        a = poly(t[3][0])
        e = poly(('op', '+', t[3][0], t[3][1]))
        return a, e

    def iseq(self, st, p, k):
        if p is None:
            return False
        p = dict(p)
        o = p.pop(1, 0)
        return o == k and len(p) == 1 and list(p.values()) == [1] and self.role(list(p)[0]) == {61}

    def isend(self, st, p):
        return p is not None and len(p) == 1 and list(p.values()) == [1] and self.char(st, list(p)[0], 0) == 41

    def field(self, loc):
        l = strip_old(loc) if loc is not None else None
        if l is not None and l[0] == 'f' and l[2].startswith(MT + 'Substitution::'):
            return l[2].split('::')[-1]
        return None

    def write(self, eng, st, fr, node, loc, val, op):
        f = self.field(loc)
        if f in ('before', 'after') and val is not None:
            m = self.mid(st, val)
            if m is None:
                return
            self.seen.add(f)
            a, e = m
            if f == 'before':
                self.ck(st, fr, node, a == {self.start_: 1} and self.iseq(st, e, 0), 'the text before the equals sign is replaced', 'what is replaced is not the text between the colon and the equals sign')
                b = list(e)[0] if e else None
                self.ck(st, fr, node, b in (None, 1) or st.vs(b)[0] is not None and st.vs(b)[0] >= 0, 'there is an equals sign', 'a substitution without equals sign is accepted')
            else:
                self.ck(st, fr, node, self.iseq(st, a, 1) and self.isend(st, e), 'the text between equals sign and parenthesis replaces it',
                        'what replaces it is not the text between the equals sign and the parenthesis')
        if loc[0] == 'loc' and val is not None and op == '=' and fr.fn.cfg.nodes and strip_old(val)[0] in ('r', 'loc'):
            p = self.pos(val)
            if p is not None and self.char(st, p[0], p[1]) == 41:
                self.ck(st, fr, node, st.flags.get(('quoted',)) == 0, 'a parenthesis behind a caret is no end', 'a parenthesis behind a caret ends the substitution')
                st.flags[('ended',)] = 1

    def done(self, eng, st, fr, node, lid):
        # the mark that the next character is quoted
        if lid not in self.scan:
            return
        cs = [(f, v) for f, v in st.flags.items() if f[0] in ('at', 'ne') and f[2] == 0]
        caret = any(v == 94 for f, v in cs if f[0] == 'at')
        other = any(f[0] == 'at' and v != 94 for f, v in cs) or any(f[0] == 'ne' and f[3] == 94 for f, v in cs)
        if not cs or fr.parent is not None:
            return
        self.ck(st, fr, node, ('ended',) not in st.flags, 'the first parenthesis ends the substitution', 'the substitution does not end at the first parenthesis')
        q = [st.vs(v) for k, v in st.env.items() if k[0] == 'v' and k in self.bools]
        if caret:
            self.ck(st, fr, node, any(x == (1, 1, ()) for x in q), 'a caret quotes the next character', 'a caret does not quote the next character')
            self.ck(st, fr, node, ('quote',) in st.flags, 'the place of each caret is kept', 'a caret is not removed from the text')
        elif other:
            self.ck(st, fr, node, all(x == (0, 0, ()) for x in q), 'only the character behind a caret is quoted', 'more than the character behind a caret is quoted')
            self.ck(st, fr, node, ('quote',) not in st.flags, 'only carets are removed', 'a character that is no caret is removed')
        if any(v == 41 for f, v in cs if f[0] == 'at'):
            self.ck(st, fr, node, st.flags.get(('quoted',)) == 1, 'a parenthesis that is not quoted is the end', 'the first parenthesis does not end the substitution')
        st.flags.pop(('quoted',), None)

    def call(self, eng, st, fr, node, ci):
        self.look(eng, st, fr, node, ci)
        if ci.short in ('append', 'push_back', 'operator<<', 'prepend', 'push_front') and ci.rloc is not None and ci.rloc[0] == 'loc' and ci.args and \
                any(n in ci.name for n in ('QVector', 'QList', 'QStack', 'std::vector')):
            p = self.pos(ci.args[0])
            if p is not None and p[0] is not None:
                st.flags[('quote',)] = 1
                self.order = ci.short in ('prepend', 'push_front')
                self.ck(st, fr, node, self.char(st, p[0], p[1]) == 94, 'the place of a caret is kept', 'the place of something else than a caret is kept')
        f = self.field(ci.rloc) if ci.rloc is not None else None
        if f and ci.short == 'remove' and len(ci.args) == 2:
            self.seen.add('remove ' + f)
            p = poly(ci.args[0])
            x = [a for a in p if isinstance(a, tuple) and a[0] == 'elem'] if p else []
            ok = False
            if len(x) == 1 and ci.args[1] == ('c', 1):
                p = dict(p)
                p.pop(x[0])
                o = p.pop(1, 0)
                if f == 'before':
                    ok = p == {self.start_: -1} and o == 0
                else:
                    ok = o == -1 and len(p) == 1 and list(p.values()) == [-1] and self.role(list(p)[0]) == {61}
            self.ck(st, fr, node, ok, 'a caret is removed where it is (%s)' % f, 'another character than the caret is removed (%s)' % f)
            self.ck(st, fr, node, st.flags.get(('left',)) == (1 if f == 'before' else 0), 'a caret is removed from the side it is on (%s)' % f, 'a caret may be removed from the wrong side')
            l = loopctx(fr, node)
            down = False
            if l[0] is not None:
                loop = l[0].fn.cfg.loops[l[1]] if hasattr(l[0].fn.cfg, 'loops') else None
                if loop is not None:
                    src = [y for part in (loop.init, loop.cond, loop.inc) if part is not None for y in (walk(part) if not isinstance(part, list) else [z for q in part for z in walk(q)])]
                    down = any(y.get('op') in ('--', 'p--', '-=') for y in src) or any('rbegin' in y.get('f', '') or 'takeLast' in y.get('f', '') for y in src)
                    ok, why = loop_complete(loop)
                    self.ck(st, fr, node, ok, 'all carets are removed', 'not all carets are removed: ' + why)
            last = any(resname(y) in ('takeLast', 'pop_back', 'pop') or y[0] == 'elem' and len(y) > 2 and y[2] == ('s', 'last') for y in subterms(ci.args[0]))
            self.ck(st, fr, node, (down or last) != bool(getattr(self, 'order', False)), 'the last caret is removed first', 'removing a caret moves those behind it: they are not removed from the last to the first')

    def branch(self, eng, st, fr, node, term, truth):
        t, v = term, truth
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = t[2], not v
        self.known(st, t, v)
        s = strip_old(t)
        if s[0] == 'r' and s[3] in self.boolsyms:
            st.flags[('quoted',)] = int(v)
        if t[0] == 'op' and len(t) == 4 and t[1] == '<':
            a, b = t[2], t[3]
            if a[0] == 'elem' and self.role(b) == {61}:
                st.flags[('left',)] = int(v)
            elif b[0] == 'elem' and self.role(a) == {61}:
                st.flags[('left',)] = int(not v)
        if s == ('c', 0) and v or s == ('c', 1) and not v:
            return False


def roles(prog, fns, rep, base=Text):
    """Which character is found where variables get the position of a loop: {symbol: characters}."""
    found = {}

    class R(base):
        BOUNDS = ''

        def enter(self, eng, st, fr):
            if fr.parent is None:
                self.texts = {('p', fr.fn.key, fr.fn.d['params'][0]['n'])}

        def inline(self, eng, fn):
            return inlined(fn)

        def call(self, eng, st, fr, node, ci):
            if ci.short in ('mid', 'midRef') and len(ci.args) == 2 and ci.recv is not None and self.text(ci.recv):
                ks = [[k[2] for k, v in st.env.items() if k[0] == 'v' and v == a and a[0] == 'r' and a[2] < -1 and a[1] == k[1]] for a in ci.args]
                if all(len(k) == 1 for k in ks):
                    found['pair'] = tuple(k[0] for k in ks)

        def branch(self, eng, st, fr, node, term, truth):
            self.known(st, term, truth)

        def write(self, eng, st, fr, node, loc, val, op):
            if loc[0] == 'loc' and val is not None and node.loop is not None and op in ('=',):
                p = self.pos(val)
                if p is None or p[0] is None:
                    return
                c = self.char(st, p[0], p[1])
                found.setdefault((number(fr.fn, node.loop), 'at%s' % loc[2]), set()).add(c)

        def done(self, eng, st, fr, node, lid):
            if fr.parent is None and getattr(fr.fn.cfg.loops[lid], 'parent', None) is None:
                for f in [f for f in st.flags if f[0] in ('lt', 'at', 'ne', 'ge')]:
                    del st.flags[f]

    for f in fns:
        e = Engine(prog, R(prog, rep), noinline=OUTSIDE, limit=40, heapkeep=(), steps='all')
        e.run(f)
    return found


def inlined(fn):
    return (fn.cls == NS + 'MacroTable' or fn.cls is None and fn.file.endswith('macrotable.cpp')) and not any(fn.name.endswith(o) for o in OUTSIDE)


OUTSIDE = ('MacroTable::expandMacros', 'MacroTable::parseSubstitutionStatement', 'MacroTable::applySubstitution', 'MacroTable::macroValue')


@check('C26')
def c26(prog, rep):
    rep.rule('C26.cycle', 'the value of a macro is expanded only while its name is in the set of macros that are being expanded, and was not in there before')
    rep.rule('C26.fresh', 'each expansion starts with an empty set')
    rep.rule('C26.name', 'the name of a macro is the text of the invocation up to its end or the first colon')
    rep.rule('C26.value', 'an invocation is replaced by the expanded value, $$ by a dollar sign')
    rep.rule('C26.subst', 'a substitution is made exactly if there is a colon, on the expanded value')
    rep.rule('C26.files', 'file name macros are kept with a mark')
    rep.rule('C26.text', 'all other text is kept, in order, once')
    rep.rule('C26.bounds', 'no position behind the end of the text is looked at')
    rep.rule('C26.pieces', 'both sides of a substitution are the text before and behind its equals sign, without the quoting carets')
    rep.rule('C26.replace', 'a substitution replaces each occurrence')
    fns = [f for f in prog.fns(MT + 'expandMacros')]
    rec = []
    for f in fns:
        for n in f.cfg.nodes:
            if n.op == 'call' and any(t is f for t in prog.targets(n.b)):
                rec.append(f)
                break
    if not rec:
        rec = [f for f in fns if any(p['ty'].startswith('QSet') for p in f.d['params'])]
    rec = list(dict.fromkeys(rec))
    scc = {f for f in prog.closure(rec) if any(r in prog.closure([f]) for r in rec)}
    opts = dict(noinline=OUTSIDE, limit=40, heapkeep=(), steps='all')
    rs = roles(prog, rec, rep)
    for f in rec:
        m = Expand(prog, rep, set(fns))
        m.roles = rs
        m.pair = rs.get('pair')
        m.inline = lambda eng, fn: inlined(fn)
        run_roots(prog, rep, m, [f], **opts)
    # the set is fresh
    for f in sorted(prog.funcs.values(), key=lambda f: f.key):
        if f in scc:
            for n in f.cfg.nodes:
                if n.op == 'call' and any(t in fns and t not in rec for t in prog.targets(n.b)):
                    rep.bad('C26.cycle', f.short, n.line, 'fresh set', 'the value of a macro is expanded with a new set, a cycle is not found', None, file=f.file)
            continue
        for n in f.cfg.nodes:
            if n.op != 'call' or not any(t in rec for t in prog.targets(n.b)):
                continue
            good = False
            for a, p in zip(n.b.get('a', []), rec[0].d['params']):
                if p['ty'].startswith('QSet'):
                    vs = [x for x in walk(a) if x.get('k') == 'var']
                    if len(vs) == 1 and vs[0].get('g') == 'local':
                        uses = sum(1 for m in f.cfg.nodes for e in (m.a, m.b) if isinstance(e, dict) for x in walk(e)
                                   if x.get('k') == 'var' and x.get('id') == vs[0]['id'] and m.op != 'decl')
                        good = uses <= 1 + 0 or True
                        inloop = n.loop is not None
                        changed = [m for m in f.cfg.nodes if m.op == 'call' and m is not n and m.b.get('f', '').split('::')[-1] in ('insert', 'unite', 'operator<<', 'operator|=')
                                   and any(x.get('id') == vs[0]['id'] for x in walk(m.b.get('o') or {}))]
                        good = not changed
            rep.check(good, 'C26.fresh', Site(f), n, 'an expansion starts with an empty set', 'an expansion starts with names in the set of macros that are being expanded', None)
    for f in prog.fns(MT + 'parseSubstitutionStatement'):
        m = Subst(prog, rep)
        m.roles = roles(prog, [f], rep)
        ids = {}
        for n in f.cfg.nodes:
            if n.op == 'decl' and n.a.get('ty') == 'bool':
                ids[n.a['id']] = 1
        m.bools = _Bools(ids)
        m.boolsyms = {'at%s' % i for i in ids}
        run_roots(prog, rep, m, [f], limit=40, heapkeep=None, steps='all')
        for s in ('before', 'after', 'remove before', 'remove after'):
            if s not in m.seen:
                rep.bad('C26.pieces', f.short, f.line, s, 'a side of the substitution is not taken from the text, or keeps its carets (%s)' % s, None, file=f.file)

    class Apply(Rule):
        def call(self, eng, st, fr, node, ci):
            if ci.short == 'replace' and 'QString' in ci.name:
                a = [x[2].split('::')[-1] if x[0] == 'f' else None for x in map(strip_old, ci.args)]
                st.flags[('made',)] = int(a[:2] == ['before', 'after'] and (len(ci.args) == 2 or ci.args[2] == ('c', 1)))

        def exit(self, eng, st, fr, node, kind, val):
            if fr.parent is None and kind == 'ret':
                self.rep.check(st.flags.get(('made',)) == 1, 'C26.replace', fr, node, 'each occurrence of the left side is replaced by the right side',
                               'a substitution does not replace each occurrence of its left side by its right side', st)
    run_roots(prog, rep, Apply(prog, rep), [MT + 'applySubstitution'])
    rep.require('C26.cycle', 4)
    rep.require('C26.text', 6)


class _Bools(object):
    def __init__(self, ids):
        self.ids = ids

    def __contains__(self, k):
        return k[2] in self.ids
