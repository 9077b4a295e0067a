"""C30: file name macros."""
from .common import *
from .registry import check
from .process import poly, peq, padd
from .macros import Site
from .expand import Text, number
from .graph import enum_value  # noqa: F401

DB = NS + 'DescriptionBlock::'
LETTERS = {68: 'D', 66: 'B', 70: 'F', 82: 'R'}


def named(ci, *names):
    return ci.name.split('::')[-1] in names


def calls_itself(ci, g, name):
    return any(t is g for t in ci.targets)


def head(node):
    return node.c if node.op == 'feinit' else node.a


def keep(fr, lid):
    """Variables of a function that the iterations of a loop do not assign."""
    ids = set()
    for n in fr.fn.cfg.nodes:
        for e in (n.a, n.b):
            if isinstance(e, dict):
                ids |= {x['id'] for x in walk(e) if x.get('k') == 'var' and 'id' in x}
    for n in fr.fn.cfg.nodes:
        if n.op in ('assign', 'decl') and n.loop == lid and isinstance(n.a, dict):
            ids.discard(n.a.get('id'))
    return ids


class Step(Text):
    """One step through the text: find a mark, expand the macro behind it, go on behind its value."""
    BOUNDS = 'C30.step'
    VISIT = True

    def __init__(self, prog, rep, values, kinds, learn):
        Text.__init__(self, prog, rep)
        self.values = values
        self.kinds = kinds
        self.learn = learn
        self.did = set()

    def ck(self, st, fr, node, c, rule, key, msg):
        if not self.learn:
            self.rep.check(c, 'C30.' + rule, fr, node, key, msg, st)

    def inline(self, eng, fn):
        return fn not in self.values and not any(fn.name.endswith('::' + n) for n in ('parseSubstitutionStatement', 'applySubstitution')) and \
            (fn.cls == NS + 'DescriptionBlock' or fn.cls is None and fn.file == self.root.fn.file)

    def enter(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.root = fr
        ps = fr.fn.d['params']
        par = [('p', fr.fn.key, p['n']) for p in ps]
        self.texts = {par[0]}
        self.textkey = ('v', fr.id, ps[0]['id'])
        self.passed = par[1:]
        self.outer = None

    def istext(self, loc, val):
        return any(x is not None and self.text(x) for x in (loc, val))

    # ------------------------------------------------------------ loops
    def first(self, eng, st, fr, node, lid, vals):
        if fr.parent is None and self.outer is None:
            self.outer = lid
            self.where = [k for k, v in vals.items() if v == ('c', 0)]
            self.ck(st, fr, node, bool(self.where), 'step', 'the text is read from its start', 'the text is not read from its start')

    STEP = ('M', 'par', 'L', 'let', 'col', 'E', 'done', 'escape', 'low', 'other', 'mods', 'lz', 'known')

    def start(self, eng, st, fr, node, lid):
        if fr.parent is None and self.outer == lid:
            st.env[self.textkey] = list(self.texts)[0]
            for f in [f for f in st.flags if f[0] in self.STEP]:
                del st.flags[f]
        else:
            for f in [f for f in st.flags if f[0] in self.INNER]:
                del st.flags[f]

    def visit(self, eng, st, fr, node):
        if node.op in ('loophead', 'feinit') and not self.learn:
            ks = self.kinds.get((fr.fn.key, head(node)), ())
            have = st.flags.get(('mods',), ())
            for k in sorted(ks, key=lambda k: 'DBFRSJ'.index(k)):
                if k not in have:
                    if k == 'S':
                        self.ck(st, fr, node, 'J' not in have, 'value', 'the substitution is made before the values are joined', 'the substitution is made too late')
                    elif k != 'J':
                        if st.flags.get(('let',)) != {v: c for c, v in LETTERS.items()}[k]:
                            continue
                        self.ck(st, fr, node, not set(have) & set('SJ'), 'value', 'the modifier is applied before the substitution', 'the modifier is applied behind the substitution')
                    have = have + (k,)
            st.flags[('mods',)] = have

    def done(self, eng, st, fr, node, lid):
        if fr.parent is None and self.outer == lid:
            self.step(st, fr, node)
            st.flags.clear()
            return
        g = st.flags.get
        k = g(('chg',))
        kinds = set()
        if k:
            kinds.add(k)
            if k in 'DBFR':
                self.ck(st, fr, node, g(('let',)) == {v: c for c, v in LETTERS.items()}[k], 'value', 'modifier %s' % k, 'the values are changed like for modifier %s, which is not given' % k)
        if g(('nosep',)) is not None:
            self.ck(st, fr, node, k == 'D', 'value', 'each value becomes a directory', 'a value is not replaced by its directory')
        if g(('cmp',)) is not None:
            kinds.add('R')
        if g(('join',)):
            kinds.add('J')
            self.ck(st, fr, node, g(('join',)) in ('v', ' v'), 'join', 'each value is taken once, behind a blank', 'values are not joined by a single blank')
            self.ck(st, fr, node, g(('one',)) == int(g(('join',)) == 'v'), 'join', 'no blank before the first value, one before the others', 'values are joined without a blank, or there is one before the first')
        if kinds:
            loop = fr.fn.cfg.loops[lid]
            ok, why = loop_complete(loop)
            self.ck(st, fr, node, ok, 'value', 'each value is treated', 'not each of the values is treated: ' + why)
            if self.learn:
                self.kinds.setdefault((fr.fn.key, lid), set()).update(kinds)
        for f in [f for f in st.flags if f[0] in self.INNER]:
            del st.flags[f]
        forget(st, fr, lid, keep=keep(fr, lid))

    INNER = ('chg', 'join', 'blank', 'quote', 'one', 'cmp', 'nosep')

    # ------------------------------------------------------------ events
    def element(self, t):
        t = strip_old(t) if t is not None else None
        if t is None or t[0] != 'elem':
            return False
        return not self.text(t[1])

    def chg(self, st, fr, node, k):
        st.flags[('chg',)] = k

    def sep(self, t):
        """Does the term denote the place of the last separator of a path?"""
        t = strip_old(t)
        if callname(t) in ('qMax', 'max') and len(t[3]) == 2:
            return {c for a in t[3] for c in [self.last(a)] if c} == {92, 47}
        return False

    def last(self, t):
        t = strip_old(t)
        if callname(t) == 'lastIndexOf' and t[3] and t[3][0][0] == 'c' and (len(t[3]) < 2 or t[3][1] == ('c', -1)):
            return t[3][0][1]
        return None

    def call(self, eng, st, fr, node, ci):
        g = st.flags.get
        short = ci.short
        text = self.istext(ci.rloc, ci.recv)
        M = g(('M',))
        if text and short == 'indexOf' and ci.args and strip_old(ci.args[0])[0] == 'g':
            p = self.pos(ci.args[1]) if len(ci.args) > 1 else None
            base = [('r', fr.id, number(fr.fn, self.outer), 'at%s' % k[2]) for k in self.where] if fr.parent is None and self.outer is not None else []
            self.ck(st, fr, node, p is not None and p[1] == 0 and p[0] in base, 'step', 'the next mark is looked for from the current position', 'the next mark is not looked for from the current position')
            return None
        if any(t in self.values for t in ci.targets):
            a = ci.args
            s = strip_old(a[0])
            p = self.pos(s[3][0]) if callname(s) in ('mid', 'midRef') and self.text(s[2]) and s[3] else None
            par = g(('par',))
            self.ck(st, fr, node, par is not None and p == (M, 1 + par), 'step', 'the macro behind the mark is expanded', 'another character than the one behind the mark decides which macro is expanded')
            self.ck(st, fr, node, tuple(a[2:]) == tuple(self.passed), 'pass', 'the dependent and the kind of the text are passed on', 'the dependent or the kind of the text is not passed on')
        if text and short == 'replace':
            self.replace(st, fr, node, ci)
        elif text and short == 'remove':
            ok = g(('lz',)) == 1 and g(('par',)) == 1 and len(ci.args) == 2 and self.pos(ci.args[0]) == (M, 0) and ci.args[1] == ('c', 3) and g(('done',)) is None
            self.ck(st, fr, node, ok, 'step', 'an unknown macro is removed', 'text is removed that is no unknown macro')
            st.flags[('done',)] = ('c', 0)
        elif text and not ci.e.get('const') and short not in ('at', 'operator[]', 'detach', 'data', 'begin', 'end', 'reserve') and ci.rloc is not None and self.text(ci.rloc):
            self.ck(st, fr, node, False, 'step', '', 'the text is changed by %s' % short)
        if short == 'parseSubstitutionStatement':
            p = self.pos(ci.args[1])
            let, col = g(('let',)), g(('col',))
            k = 3 if let == 58 else 4 if let in LETTERS and col == 1 else None
            self.ck(st, fr, node, k is not None and p is not None and dict(p[0] if isinstance(p[0], tuple) and p[0] and isinstance(p[0][0], tuple) else ()) == {M: 1, g(('L',)): 1} and p[1] == k
                    and g(('par',)) == 1, 'value', 'the substitution starts behind the colon', 'the substitution does not start behind the colon')
        if short == 'applySubstitution':
            if self.element(ci.args[1]) or self.element(ci.alocs[1]) or node.loop is not None:
                self.ck(st, fr, node, g(('E',)) is not None, 'value', 'the substitution of the macro is applied', 'a substitution is applied that the macro does not have')
                self.ck(st, fr, node, resname(ci.args[0]) == 'parseSubstitutionStatement', 'value', 'the substitution that was read is applied', 'another substitution is applied than the one that was read')
                self.chg(st, fr, node, 'S')
        if short in ('baseName', 'fileName', 'completeBaseName', 'path', 'absolutePath', 'suffix', 'filePath', 'absoluteFilePath') and 'QFileInfo' in ci.name and fr is not None:
            k = {'baseName': 'B', 'fileName': 'F'}.get(short)
            if M is not None:
                self.ck(st, fr, node, k is not None, 'value', 'the base name or the file name is taken', 'a modifier takes %s() of the values' % short)
            if k:
                self.chg(st, fr, node, k)
        if M is not None and short in ('truncate', 'chop', 'left') and ci.args and ci.recv is not None and not text:
            a = strip_old(ci.args[0])
            if self.last(a) == 46:
                ok = short != 'chop' and {c for c in (92, 47) if g(('cmp',), {}) and c in g(('cmp',))} == {92, 47} or ('sepcmp',) in st.flags
                self.ck(st, fr, node, ok, 'value', 'a dot is the start of an extension only behind the last separator', 'an extension may be cut off at a dot in a directory name')
                self.chg(st, fr, node, 'R')
            elif short == 'left' or short == 'truncate':
                self.ck(st, fr, node, self.sep(a), 'value', 'the directory is what is in front of the last separator', 'a part of the values is cut off that is neither behind the last separator nor the extension')
                self.ck(st, fr, node, ('nosep', 0) in st.flags or ('nosep',) not in st.flags and False or st.flags.get(('nosep',)) == 0, 'value', 'there is a separator', 'the directory is cut out although there is no separator')
                self.chg(st, fr, node, 'D')
        self.joining(st, fr, node, ci)
        return None

    def joining(self, st, fr, node, ci):
        """Appending to the local string of joined values."""
        g = st.flags.get
        if loopctx(fr, node)[1] in (None, self.outer) and loopctx(fr, node)[0] in (None, self.root) or 'QString::' not in ci.name or 'QStringList' in ci.name:
            return
        l = ci.rloc
        if ci.short == 'contains' and ci.args and ci.args[0][0] in ('c', 's'):
            return
        if ci.short in ('prepend', 'push_front', 'insert') and ci.args and ci.args[-1] in (('c', 34), ('s', '"')):
            st.flags[('quote',)] = 'p' + g(('quote',), '')
        elif l is not None and l[0] == 'loc' and ci.short in ('append', 'operator+=', 'push_back'):
            a = strip_old(ci.args[0])
            if a in (('c', 34), ('s', '"')):
                st.flags[('quote',)] = g(('quote',), '') + 'a'
            elif a in (('c', 32), ('s', ' ')):
                st.flags[('join',)] = g(('join',), '') + ' '
            else:
                b = [st.flags.get(('blank', c)) for c in (32, 9)]
                q = g(('quote',), '')
                if 1 in b:
                    self.ck(st, fr, node, q in ('pa', 'ap'), 'join', 'a value with a blank is quoted', 'a value with a blank is not quoted')
                elif b == [0, 0]:
                    self.ck(st, fr, node, q == '', 'join', 'a value without blank is not quoted', 'a value without blank is quoted')
                else:
                    self.ck(st, fr, node, False, 'join', '', 'a value is taken without looking whether it has to be quoted')
                st.flags[('join',)] = g(('join',), '') + 'v'

    def after(self, eng, st, fr, node, ci, res):
        if self.istext(ci.rloc, ci.recv) and ci.short == 'indexOf' and ci.args and strip_old(ci.args[0])[0] == 'g':
            st.flags[('M',)] = strip_old(res)
        if any(t in self.values for t in ci.targets):
            l = ci.alocs[1]
            v = eng.read(st, l) if l is not None else None
            if v is not None:
                st.flags[('L',)] = strip_old(v)
        if ci.short == 'parseSubstitutionStatement':
            l = ci.alocs[2] if len(ci.alocs) > 2 else None
            v = eng.read(st, l) if l is not None else None
            if v is not None:
                st.flags[('E',)] = strip_old(v)

    def write(self, eng, st, fr, node, loc, val, op):
        if val is not None and strip_old(val) == ('s', '.') and op != 'decl':
            self.ck(st, fr, node, st.flags.get(('nosep',)) == 1, 'value', 'the directory of a plain name is .', 'a directory is replaced by a dot')
            self.chg(st, fr, node, 'D')
        return None

    def branch(self, eng, st, fr, node, term, truth):
        g = st.flags.get
        t, v = term, truth
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = t[2], not v
        M, L = g(('M',)), g(('L',))
        r = self.known(st, t, v)
        if r is not None and M is not None:
            b, k, c, is_ = r
            if b == M and k == 1 and c == 40:
                st.flags[('par',)] = int(is_)
            if b == M and k == -1 and c == 94 and is_:
                st.flags[('escape',)] = 1
            if L is not None and isinstance(b, tuple) and b and isinstance(b[0], tuple) and dict(b) == {M: 1, L: 1}:
                if k == 2:
                    if is_:
                        st.flags[('let',)] = c
                    elif ('let',) not in st.flags:
                        st.flags[('other',)] = tuple(sorted(set(g(('other',), ())) | {c}))
                if k == 3 and c == 58:
                    st.flags[('col',)] = int(is_)
        s = strip_old(t)
        if t[0] == 'op' and len(t) == 4:
            a, b = strip_old(t[2]), strip_old(t[3])
            if t[1] == '==':
                c, x = (a, b) if a[0] == 'c' else (b, a)
                if c == ('c', 0) and L is not None and x == L:
                    st.flags[('lz',)] = int(v)
                if c == ('c', -1) and self.sep(x):
                    st.flags[('nosep',)] = int(v)
                if c == ('c', 0) and x[0] == 'r' and x[3].startswith('at'):
                    st.flags[('one',)] = int(v)
            if t[1] == '<':
                p = poly(('op', '-', t[3], t[2]))
                if p is not None and M is not None:
                    p = dict(p)
                    c = p.pop(1, 0)
                    if p == {M: -1}:        # M < c
                        if c == 1:
                            st.flags[('low',)] = int(v)
                        if c <= 0 and v:
                            return False
                    if p and all(x in (M, L, g(('E',))) and y > 0 for x, y in p.items()) and c >= 0 and not v:
                        return False        # the position of something is not negative
                for x, y, w in ((a, b, v), (b, a, not v)):
                    if self.sep(x) and y == ('c', 0):
                        st.flags[('nosep',)] = int(w)
                    if x == ('c', -1) and self.sep(y):
                        st.flags[('nosep',)] = int(not w)
                    if self.last(x) in (92, 47) and self.last(y) == 46:
                        st.flags[('cmp',)] = tuple(sorted(set(g(('cmp',), ())) | ({self.last(x)} if w else set())))
                    if self.sep(x) and self.last(y) == 46:
                        st.flags[('cmp',)] = (47, 92) if w else ()
                if a == ('c', 0) and b[0] == 'r' and b[3].startswith('at'):
                    st.flags[('one',)] = int(not v)
        if callname(s) == 'contains' and s[3] and s[3][0][0] == 'c' and s[3][0][1] in (32, 9):
            st.flags[('blank', s[3][0][1])] = int(v)
        if callname(s) == 'isEmpty' or s[0] == 'op' and s[1] == '==' and ('c', 0) in s[2:] and any(x[0] == 'size' for x in s[2:]):
            st.flags.setdefault(('one',), int(v)) if not self.texts & {x for x in subterms(s)} else None
        if s == ('c', 0) and v or s[0] == 'c' and s[1] != 0 and not v:
            return False
        return None

    # ------------------------------------------------------------ the replacement
    def replace(self, st, fr, node, ci):
        g = st.flags.get
        ck = lambda c, rule, key, msg: self.ck(st, fr, node, c, rule, key, msg)
        M, L, E, let, col = g(('M',)), g(('L',)), g(('E',)), g(('let',)), g(('col',))
        if len(ci.args) < 3 or ci.args[0][0] == 's':
            ck(False, 'step', '', 'text is replaced that is not the macro')
            return
        a, n, v = self.pos(ci.args[0]), poly(ci.args[1]), strip_old(ci.args[2])
        ck(g(('done',)) is None, 'step', 'a macro is replaced once', 'a macro is replaced more than once')
        ck(a == (M, 0), 'step', 'the text of the macro is replaced from its mark on', 'the text that is replaced does not start with the mark of the macro')
        ck(g(('escape',)) is None and (g(('low',)) == 1 or ('ne', M, -1, 94) in st.flags), 'step', 'a macro behind a caret is kept', 'a macro behind a caret is expanded')
        mods = g(('mods',), ())
        need = ['J']
        if g(('par',)) == 1:
            if let == 41:
                want = {L: 1, 1: 3}
            elif let in LETTERS and col == 0:
                want = {L: 1, 1: 4}
                need.append(LETTERS[let])
            elif let == 58 or let in LETTERS and col == 1:
                want = {E: 1, M: -1, 1: 1}
                need.append('S')
                if let in LETTERS:
                    need.append(LETTERS[let])
                ck(E is not None, 'value', 'the substitution is read', 'the substitution of a macro is ignored')
                if E is None:
                    want = n
            else:
                want = None
                ck(False, 'step', '', 'something is replaced that is no macro')
        else:
            ck(g(('par',)) == 0, 'step', 'it is known whether there is a parenthesis', 'a macro is expanded without looking for a parenthesis')
            want = {L: 1, 1: 1}
        if want is not None:
            ck(n is not None and peq(n, want), 'step', 'the text of the macro is replaced up to its end', 'the text that is replaced does not end with the macro')
        for k in need:
            if k == 'J' and resname(v) == 'join':
                x = v[3] if v[0] == 'm' else ()
                ck(bool(x) and x[0] in (('c', 32), ('s', ' ')), 'join', 'values are joined by a blank', 'values are not joined by a blank')
                continue
            ck(k in mods, 'value', {'J': 'the values are joined', 'S': 'the substitution is applied to the values'}.get(k, 'modifier %s is applied to the values' % k),
               {'J': 'the values are not joined', 'S': 'the substitution is not applied to the values'}.get(k, 'modifier %s is not applied to the values' % k))
        for k in mods:
            ck(k in need, 'value', 'nothing else is done to the values', 'the values are changed although the macro does not say so')
        ck(v[0] not in ('s', 'c', 'p', 'elem'), 'value', 'the macro is replaced by its values', 'the macro is replaced by something else than its values')
        st.flags[('done',)] = v

    def step(self, st, fr, node):
        g = st.flags.get
        ck = lambda c, rule, key, msg: self.ck(st, fr, node, c, rule, key, msg)
        M, V = g(('M',)), g(('done',))
        key = self.where[0] if self.where else None
        i = poly(st.env.get(key)) if key and st.env.get(key) is not None else None
        d = padd(i, {M: -1}) if i is not None and M is not None else None
        if d is not None:
            d = {strip_old(x) if isinstance(x, tuple) else x: y for x, y in d.items() if y}
        if M is None:
            ck(False, 'step', '', 'a step through the text looks for no mark')
        elif V is not None:
            size = {('size', V): 1}
            ck(d is not None and (d == {} or d == size), 'step', 'the next mark is looked for right behind the value', 'the next mark is not looked for right behind the value')
        else:
            ck(d == {1: 1}, 'step', 'a mark that is kept is passed', 'the search does not go on behind a mark that is kept')
            if g(('L',)) is not None:
                ck(g(('par',)) == 1 and g(('let',)) is None and set(LETTERS) | {58, 41} <= set(g(('other',), ())), 'step', 'a macro is expanded unless its modifier is unknown', 'a macro is not expanded')
            else:
                ck(g(('escape',)) == 1 or self.seen_before(st, M), 'step', 'a macro is expanded unless there is a caret in front of it', 'a macro is not expanded although there is no caret in front of it')

    def seen_before(self, st, M):
        """The mark was kept in the step before (compared with a variable that holds its position)."""
        for t, s in st.facts.items():
            x = strip_old(t)
            if x[0] == 'op' and x[1] == '==' and len(x) == 4:
                for a, b in ((x[2], x[3]), (x[3], x[2])):
                    if poly(a) is not None and peq(poly(a), {M: 1}) and b[0] == 'r' and b[3].startswith('at') and not (s[0] == 0 and s[1] == 0):
                        return True
        return False


class Values(Rule):
    """The values of a file name macro."""

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.root = fr
            ps = fr.fn.d['params']
            self.str, self.len, self.idx, self.forb = [('p', fr.fn.key, p['n']) for p in ps]
            self.lenname = ps[1]['n']

    def inline(self, eng, fn):
        return fn.cls == NS + 'DescriptionBlock' and fn.short.split('::')[-1] != 'targetName' or fn.cls is None and fn.file == self.root.fn.file

    def ck(self, st, fr, node, c, key, msg):
        self.rep.check(c, 'C30.values', fr, node, key, msg, st)

    def dependents(self, t):
        return mentions_field(t, 'DescriptionBlock::m_dependents')

    def kind(self, st, t):
        t = strip_old(t)
        if resname(t) == 'targetName' or is_field(t, 'DescriptionBlock::m_targetName'):
            return 'target'
        if t[0] == 'elem' and is_field(t[1], 'DescriptionBlock::m_dependents'):
            return 'dep[i]' if strip_old(t[2]) == self.idx else 'dep'
        if is_field(t, 'DescriptionBlock::m_dependents'):
            return 'deps'
        if callname(t) in ('left', 'mid') and self.kind(st, t[2]) == 'target':
            return 'stem'
        if t[0] == 'elem':
            return 'dep[i]' if ('one',) in st.flags else '?'
        return '?'

    def call(self, eng, st, fr, node, ci):
        g = st.flags.get
        if ci.short in ('operator+=', 'operator<<', 'append', 'push_back', 'prepend') and ('QStringList' in ci.name or 'QList' in ci.name) and ci.rloc is not None and ci.rloc[0] == 'loc':
            l = ci.rloc[2]
            a = strip_old(ci.args[0])
            k = self.kind(st, a)
            if k == 'dep[i]' and g(('idx',)) == 0 and g(('c', 0)) is None:
                st.flags[('one',)] = l
            if g(('stem',)) == 1 and (a[0] in ('loc', 'r', 'j') or k == 'target'):
                k = 'stem'
            st.flags[('r', l)] = g(('r', l), ()) + (k,)
            if node.loop is not None or loopctx(fr, node)[1] is not None:
                f, lid = loopctx(fr, node)
                self.ck(st, fr, node, loop_complete(f.fn.cfg.loops[lid])[0], 'each dependent is examined', 'not each dependent is examined')
                self.ck(st, fr, node, g(('newer',)) == 1, 'only dependents that are not older than the target are values of $?', 'a dependent that is older than the target is a value of $?')
        if ci.short in ('truncate', 'chop') and ci.args:
            a = strip_old(ci.args[0])
            ok = ci.short == 'truncate' and callname(a) == 'lastIndexOf' and a[3][0] == ('c', 46)
            self.ck(st, fr, node, ok and {92, 47} <= set(g(('cmp',), ())), 'the extension is cut off', 'a part of the target is cut off that is not its extension')
            st.flags[('stem',)] = 1

    def write(self, eng, st, fr, node, loc, val, op):
        l = strip_old(loc)
        if val is not None and l == self.len or loc[0] == 'loc' and loc[1] == self.root.id and loc[3] == self.lenname:
            st.flags[('len',)] = val[1] if val is not None and val[0] == 'c' else '?'
        if loc[0] == 'loc' and val is not None and op != 'decl' or loc[0] == 'loc' and val is not None and self.kind(st, val) == 'deps':
            v = strip_old(val)
            k = self.kind(st, v)
            if k == 'deps':
                st.flags[('r', loc[2])] = ('deps',)
            elif ('list',) and v[0] == 'loc' and v[1] == loc[1]:
                st.flags[('r', loc[2])] = st.flags.get(('r', v[2]), ())
        return None

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'iter':
            st.flags.pop(('newer',), None)
        else:
            n = st.flags.pop(('newer',), None)
            if n == 1:
                self.ck(st, fr, node, any(f[0] == 'r' and f[1] != 'x' and st.flags[f] and st.flags[f][-1] in ('dep', 'dep[i]', '?') for f in st.flags), 'a dependent that is not older is a value', 'a dependent that is not older than the target is no value of $?')
            for f in [f for f in st.flags if f[0] == 'r']:
                if len(st.flags[f]) > 1:
                    st.flags[f] = st.flags[f][:1]
            st.flags[('ran',)] = 1
            for f in [f for f in st.flags if f[0] == 't' and st.flags[f] != 'target']:
                del st.flags[f]
            stay = keep(fr, lid)
            for k in [k for k in st.env if k[0] == 'v' and k[1] == fr.id and k[2] not in stay]:
                st.env[k] = ('r', fr.id, -1 - lid, 'var%s' % (k[2],))

    def after(self, eng, st, fr, node, ci, res):
        if ci.short == 'lastModified' and ci.recv is not None:
            f = strip_old(ci.recv)
            k = self.kind(st, f[2][0]) if f[0] == 'obj' and f[2] else '?'
            if f[0] == 'obj' and f[2] and strip_old(f[2][0])[0] == 'elem':
                k = 'dep'
            st.flags[('t', strip_old(res))] = 'target' if k == 'target' else 'dep' if k.startswith('dep') else '?'

    def branch(self, eng, st, fr, node, term, truth):
        g = st.flags.get
        t, v = truths(term, truth)
        if t == self.forb:
            st.flags[('forb',)] = int(v)
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = t[2], not v
        if t[0] == 'op' and len(t) == 4:
            a, b = t[2], t[3]
            if t[1] == '==':
                c, x = (a, b) if a[0] == 'c' else (b, a)
                if x == self.idx and c == ('c', -1):
                    st.flags[('idx',)] = int(v)
                if x[0] == 'elem' and strip_old(x[1]) == self.str and c[0] == 'c':
                    i = x[2][1] if x[2][0] == 'c' else None
                    if i in (0, 1):
                        if v:
                            st.flags[('c', i)] = c[1]
                        elif i == 1 and c[1] == 42:
                            st.flags[('c', 1)] = 0
            if t[1] == '<':
                if x_ := [y for y in (a, b) if y[0] == 'size' and strip_old(y[1]) == self.str]:
                    if b == ('c', 2) and v or a == ('c', 1) and not v:
                        st.flags[('c', 1)] = 0
                if x_ := b == self.idx or a == self.idx:
                    if b == ('c', 0):
                        st.flags[('idx',)] = int(v)
                    elif a == ('c', -1):
                        st.flags[('idx',)] = int(not v)
                ka, kb = g(('t', a)), g(('t', b))
                if ka and kb:
                    if (ka, kb) == ('dep', 'target'):
                        st.flags[('newer',)] = int(not v)
                    else:
                        self.ck(st, fr, node, False, '', 'the times of target and dependent are not compared by target <= dependent')
                for x, y, w in ((a, b, v), (b, a, not v)):
                    if any(callname(z) == 'lastIndexOf' for z in (x,) + tuple(x[3] if callname(x) in ('qMax', 'max') else ())) and callname(y) == 'lastIndexOf' and y[3][0] == ('c', 46) and not w:
                        st.flags[('stem',)] = 1
                    if callname(x) == 'lastIndexOf' and callname(y) == 'lastIndexOf' and y[3][0] == ('c', 46) and w:
                        st.flags[('cmp',)] = tuple(sorted(set(g(('cmp',), ())) | {x[3][0][1]}))
                    elif callname(x) in ('qMax', 'max') and callname(y) == 'lastIndexOf' and y[3][0] == ('c', 46) and w:
                        st.flags[('cmp',)] = tuple(sorted(z[3][0][1] for z in x[3] if callname(z) == 'lastIndexOf'))
        return None

    def ret(self, eng, st, fr, node, val):
        if fr is not self.root:
            return
        g = st.flags.get
        c, one = g(('c', 0)), g(('c', 1))
        v = strip_old(val)
        lists = {f[1]: st.flags[f] for f in st.flags if f[0] == 'r'}
        r = ()
        if v[0] == 'loc':
            r = lists.get(v[2], ())
        elif is_field(v, 'DescriptionBlock::m_dependents'):
            r = ('deps',)
        elif v[0] == 'elem' or v[0] == 'r':
            r = ('?',)
        for k, x in st.env.items():
            if k[0] == 'v' and k[1] == fr.id and x == val and k[2] in lists:
                r = lists[k[2]]
        ck = lambda c, key, msg: self.ck(st, fr, node, c, key, msg)
        n = g(('len',))
        if c == 64:
            ck(r == ('target',) and n == 1, '$@ is the target', 'the value of $@ is not the target')
        elif c == 42 and one == 42:
            ck(n == 2, '$** has two characters', '$** is not replaced as a whole')
            ck(g(('forb',)) == 0, '$** is an error among dependents', '$** is accepted among dependents')
            self.cand(ck, g, r, '$**')
        elif c == 42:
            ck(one == 0 and r == ('stem',) and n == 1, '$* is the target without its extension', 'the value of $* is not the target without its extension')
        elif c == 63:
            ck(n == 1 and g(('forb',)) == 0, '$? is an error among dependents', '$? is accepted among dependents, or not replaced as a whole')
            if r:
                ck(g(('ran',)) == 1, '$? are dependents', 'the values of $? are not chosen among the dependents')
                if g(('idx',)) == 1:
                    ck(set(r) <= {'dep'}, '$? are dependents', 'a value of $? is no dependent')
                else:
                    ck(set(r) <= {'dep[i]', '?'}, '$? is the one dependent', 'a value of $? is no dependent')
        elif c is None:
            ck(r == () and n in (None, 0), 'nothing else is a file name macro', 'something else is taken for a file name macro')

    def cand(self, ck, g, r, name):
        if g(('idx',)) == 1:
            ck(r == ('deps',), name + ' are all dependents', 'the values of %s are not all the dependents' % name)
        elif g(('idx',)) == 0:
            ck(r == ('dep[i]',), name + ' with ! is one dependent', 'the value of %s in a command with ! is not the one dependent' % name)
        else:
            ck(False, '', 'the values of %s do not depend on whether the command has a !' % name)


class Each(Rule):
    """Which texts are expanded."""
    VISIT = True

    def __init__(self, prog, rep, steps, single):
        Rule.__init__(self, prog, rep)
        self.steps = steps
        self.single = single

    def ck(self, st, fr, node, c, key, msg):
        self.rep.check(c, 'C30.each', fr, node, key, msg, st)

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.root = fr
            self.par = [('p', fr.fn.key, p['n']) for p in fr.fn.d['params']]

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret' and self.single:
            g = st.flags
            self.ck(st, fr, node, g.get(('line',)) == 1, 'the command line is expanded', 'the file name macros of the command line are not expanded, or twice')
            self.ck(st, fr, node, ('loop',) in g, 'inline files are expanded', 'the file name macros of inline files are not expanded')

    def visit(self, eng, st, fr, node):
        if node.op in ('loophead', 'feinit') and (fr.fn.key, head(node)) in self.loops:
            st.flags[('loop',)] = 1

    loops = ()

    def call(self, eng, st, fr, node, ci):
        if not self.single or not any(t in self.steps for t in ci.targets):
            return
        l = strip_old(ci.alocs[0] if ci.alocs[0] is not None else ci.args[0])
        g = st.flags.get
        for n in ('m_commandLine', 'm_filename', 'm_content'):
            if mentions_field(l, ('InlineFile::' if n != 'm_commandLine' else 'Command::') + n):
                k = {'m_commandLine': 'line'}.get(n, n)
                st.flags[(k,)] = g((k,), 0) + 1
                break
        else:
            self.ck(st, fr, node, False, '', 'something is expanded that is no part of a command')
        self.ck(st, fr, node, ci.args[1] == self.par[1] and ci.args[2] == ('c', 0), 'the dependent is passed on', 'the dependent of a command with ! is not passed on, or the macros for dependents are forbidden')

    def loop(self, eng, st, fr, node, what, lid):
        if not self.single:
            return
        if what == 'iter':
            for k in ('m_filename', 'm_content'):
                st.flags.pop((k,), None)
        else:
            for k in ('m_filename', 'm_content'):
                self.ck(st, fr, node, st.flags.pop((k,), 0) == 1, '%s of an inline file is expanded' % k, 'the file name macros of %s of an inline file are not expanded, or twice' % k)
            self.ck(st, fr, node, loop_complete(fr.fn.cfg.loops[lid])[0], 'each inline file', 'not each inline file is expanded')
            self.loops = set(self.loops) | {(fr.fn.key, lid)}


class Commands(Rule):
    """expandFileNameMacros(): each command once, commands with ! for each dependent."""
    VISIT = True

    def __init__(self, prog, rep, one):
        Rule.__init__(self, prog, rep)
        self.one = one

    def ck(self, st, fr, node, c, key, msg):
        self.rep.check(c, 'C30.each', fr, node, key, msg, st)

    outer = None

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.root = fr

    def call(self, eng, st, fr, node, ci):
        g = st.flags.get
        if any(t in self.one for t in ci.targets):
            a = ci.args
            if a[1] == ('c', -1):
                self.ck(st, fr, node, g(('single',)) == 0, 'a command without ! is expanded with all dependents', 'a command with ! is expanded with all dependents')
                st.flags[('x',)] = g(('x',), 0) + 1
            else:
                self.ck(st, fr, node, g(('single',)) == 1, 'only a command with ! is expanded with one dependent', 'a command without ! is expanded with one dependent')
                f, lid = loopctx(fr, node)
                ok = f is not None and loop_complete(f.fn.cfg.loops[lid])[0] and any(mentions(c, 'm_dependents') for c in (f.fn.cfg.loops[lid].cond, f.fn.cfg.loops[lid].init, f.fn.cfg.loops[lid].container) if c is not None)
                self.ck(st, fr, node, ok, 'a command with ! is executed for each dependent', 'a command with ! is not executed for each dependent')
                if ok:
                    self.inner = (f.fn.key, lid)
                l = ci.alocs[0]
                st.flags[('copy',)] = strip_old(l) if l is not None else None
                i = a[1]
                var = [k for k, v in st.env.items() if v == i and k[0] == 'v' and k[1] == f.id] if f is not None else []
                self.ck(st, fr, node, bool(var) and not any(x[0] == 'size' for x in subterms(i)), 'the dependent is the one of this iteration', 'the dependent is not the one of this iteration')
        if ci.short in ('insert', 'append', 'push_back', 'operator<<', 'operator+=', 'prepend') and 'Command' in ci.name and ci.args:
            if g(('single',)) == 1:
                l = ci.alocs[-1] if ci.alocs else None
                self.ck(st, fr, node, g(('copy',)) is not None and (l is None or strip_old(l) == g(('copy',))), 'a copy is expanded before it is taken', 'a copy of a command with ! is not expanded')
                self.ck(st, fr, node, g(('off',)) == 1, 'a copy does not have a !', 'the copy of a command with ! is a command with ! itself: it is copied again the next time')
                self.ck(st, fr, node, ci.short != 'prepend', 'copies keep their order', 'the copies of a command with ! are executed in reverse')
        if ci.short in ('erase', 'removeAt', 'takeAt', 'removeFirst', 'takeFirst', 'removeOne', 'clear') and 'Command' in ci.name:
            self.ck(st, fr, node, g(('single',)) == 1 or ci.short == 'clear', 'only a command with ! is replaced', 'a command without ! is removed')
            st.flags[('gone',)] = 1

    inner = None

    def visit(self, eng, st, fr, node):
        if node.op in ('loophead', 'feinit') and (fr.fn.key, head(node)) == self.inner:
            st.flags[('copies',)] = 1

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, 'Command::m_singleExecution'):
            st.flags[('off',)] = int(val == ('c', 0))
        return None

    def branch(self, eng, st, fr, node, term, truth):
        t, v = truths(term, truth)
        if is_field(t, 'Command::m_singleExecution'):
            st.flags[('single',)] = int(v)
        return None

    def loop(self, eng, st, fr, node, what, lid):
        g = st.flags.get
        if what == 'iter':
            if fr.parent is None and node.loop in (None, lid) and self.outer is None:
                self.outer = lid
            if lid == self.outer:
                for k in ('single', 'x', 'copy', 'off', 'gone', 'copies'):
                    st.flags.pop((k,), None)
            else:
                for k in ('copy', 'off'):
                    st.flags.pop((k,), None)
        elif lid == self.outer:
            if g(('single',)) == 1:
                self.ck(st, fr, node, self.inner is None or g(('copies',)) == 1, 'a command with ! is replaced', 'a command with ! is not expanded')
                self.ck(st, fr, node, self.inner is not None, 'a command with ! is replaced', 'a command with ! is not expanded')
            else:
                self.ck(st, fr, node, g(('x',)) == 1, 'each command is expanded once', 'a command is not expanded, or twice')
            c = fr.fn.cfg.loops[lid]
            st.heap.clear()
        else:
            st.heap.clear()


class Dependents(Rule):
    VISIT = True

    def __init__(self, prog, rep, steps):
        Rule.__init__(self, prog, rep)
        self.steps = steps
        self.loops = set()

    def call(self, eng, st, fr, node, ci):
        if any(t in self.steps for t in ci.targets):
            l = strip_old(ci.alocs[0] if ci.alocs[0] is not None else ci.args[0])
            f, lid = loopctx(fr, node)
            if ('ran',) not in st.flags:
                st.flags[('ran',)] = 1
                self.rep.check(l[0] != 'elem' or l[2] == ('c', 0) or l[2][0] == 'site', 'C30.each', fr, node, 'from the first dependent on', 'the file name macros of the first dependent are not expanded', st)
            ok = (mentions_field(l, 'DescriptionBlock::m_dependents') or (f.fn.key, lid) in self.loops) and f is not None and loop_complete(f.fn.cfg.loops[lid])[0]
            self.rep.check(ok, 'C30.each', fr, node, 'each dependent is expanded', 'the file name macros are not expanded in each dependent', st)
            self.rep.check(ci.args[2] == ('c', 1), 'C30.each', fr, node, 'macros for dependents are forbidden in dependents', 'macros for dependents are accepted in dependents', st)
            if ok:
                self.loops.add((f.fn.key, lid))
            st.flags[('x',)] = 1

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'iter':
            st.flags.pop(('x',), None)
        else:
            self.rep.check(st.flags.pop(('x',), 0) == 1, 'C30.each', fr, node, 'each dependent', 'the file name macros of a dependent are not expanded', st)

    def visit(self, eng, st, fr, node):
        if node.op in ('loophead', 'feinit') and (fr.fn.key, head(node)) in self.loops:
            st.flags[('loop',)] = 1


def mentions(part, name):
    if part is None:
        return False
    parts = part if isinstance(part, list) else [part]
    return any(x.get('n', '').endswith(name) for p in parts if isinstance(p, dict) for x in walk(p) if x.get('k') == 'mem')


@check('C30')
def c30(prog, rep):
    rep.rule('C30.step', 'each mark is found once, the text of its macro - from the mark to the last character of the macro - is replaced by the value, and the search goes on behind it')
    rep.rule('C30.value', 'the values are changed by the modifier and then by the substitution of the macro')
    rep.rule('C30.join', 'values are joined by a blank and quoted if they contain blanks or tabs')
    rep.rule('C30.pass', 'the dependent of a command with ! and the restriction for dependents are passed on')
    rep.rule('C30.values', 'the value of each file name macro')
    rep.rule('C30.each', 'each command line, file name and text of inline files, and dependent is expanded')
    fns = prog.fns(DB + 'expandFileNameMacros')
    values = [f for f in prog.fns(DB + 'getFileNameMacroValues')]
    steps = [f for f in fns if f.d['params'] and 'QString' in f.d['params'][0]['ty']]
    one = [f for f in fns if f.d['params'] and 'Command' in f.d['params'][0]['ty']]
    every = [f for f in fns if not f.d['params']]
    kinds = {}
    for learn in (True, False):
        for f in steps:
            m = Step(prog, rep, values, kinds, learn)
            run_roots(prog, rep, m, [f], limit=24, heapkeep=(), steps='all')
    for f in values:
        run_roots(prog, rep, Values(prog, rep), [f], limit=200, steps='all', noinline=('FileTime::operator<=', 'DescriptionBlock::targetName', 'FastFileInfo::lastModified', 'FastFileInfo::FastFileInfo'))
    for f in one:
        m = Each(prog, rep, steps, True)
        pre = Each(prog, Quiet(), steps, True)
        Engine(prog, pre, limit=40, steps='all', noinline=('DescriptionBlock::expandFileNameMacros',)).run(f)
        m.loops = pre.loops
        run_roots(prog, rep, m, [f], limit=40, steps='all', noinline=('DescriptionBlock::expandFileNameMacros',))
    for f in every:
        pre = Commands(prog, Quiet(), one)
        Engine(prog, pre, limit=20, steps='all', heapkeep=(), noinline=('DescriptionBlock::expandFileNameMacros',)).run(f)
        m = Commands(prog, rep, one)
        m.inner = pre.inner
        run_roots(prog, rep, m, [f], limit=20, steps='all', heapkeep=(), noinline=('DescriptionBlock::expandFileNameMacros',))
    for f in prog.fns(DB + 'expandFileNameMacrosForDependents'):
        m = Dependents(prog, rep, steps)
        run_roots(prog, rep, m, [f], limit=20, steps='all', noinline=('DescriptionBlock::expandFileNameMacros',))
        if not m.loops:
            rep.bad('C30.each', f.short, f.line, 'dependents', 'the file name macros of the dependents are not expanded', None, file=f.file)
    rep.require('C30.step', 4)
    rep.require('C30.each', 4)


class Quiet(object):
    def check(self, *a, **k):
        pass

    bad = ok = rule = check
