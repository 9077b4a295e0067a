"""C35: lines that define macros, and the comments in them."""
from .common import *
from .registry import check
from .infer import Rule, short, rloc, soft
from .blocks import Separator, Labels


class Definition(Separator):
    """parseMacro: the first equals sign outside of parentheses, unless a colon stands before it."""
    R = 'C35.define'
    par = None

    def char(self, st, t):
        t = strip_old(t)
        if t[0] == 'elem' and self.isline(t[1]):
            return lin(strip_old(t[2]))
        return None

    def isline(self, t):
        t = strip_old(t)
        return t[0] == 'p' and t[2] == self.par

    def compare(self, st, idx, c, v):
        if c in (40, 41, 58, 61) and ('i',) not in st.flags:
            st.flags[('i',)] = idx
        st.flags[('is', self.off(st, idx), c)] = v

    def branch(self, eng, st, fr, node, t, truth):
        x, v = strip_old(t), truth
        while x[0] == 'op' and x[1] == '!' and len(x) == 3:
            x, v = strip_old(x[2]), not v
        if x[0] == 'op' and len(x) == 4 and x[1] in ('<', '=='):
            a, b = strip_old(x[2]), strip_old(x[3])
            i = st.flags.get(('i',))
            if i is not None and v and (x[1] == '<' and b == ('c', 0) and lin(a) == i or x[1] == '==' and ('c', -1) in (a, b) and i in (lin(a), lin(b))):
                return False        # the place of a character
        return Separator.branch(self, eng, st, fr, node, t, truth)

    def equals(self, st, t):
        """Is a position the one of the equals sign?"""
        g = st.flags.get
        i = g(('i',))
        if i is None or g(('is', 0, 61)) is not True or self.level0(st) is not True:
            return False
        a, b = lin(strip_old(t)), i
        return a == b or a[0][0] == 'c' and b[0][0] == 'c' and a[0][1] + a[1] == b[0][1] + b[1]

    def call(self, eng, st, fr, node, ci):
        n = short(ci.short)
        g = st.flags.get
        if ci.recv is not None and self.isline(ci.recv) and ci.args and n in ('left', 'mid', 'right', 'leftRef', 'midRef'):
            a = ci.args[0]
            if n.startswith('left') or n.startswith('mid') and len(ci.args) > 1 and ci.args[1] != ('c', -1) and a == ('c', 0):
                k = a if n.startswith('left') else ci.args[1]
                self.ck(st, fr, node, self.equals(st, k), 'the name', 'the name of a macro is not what stands before the first equals sign outside of parentheses')
                st.flags[('part',)] = 'name'
            else:
                self.ck(st, fr, node, n.startswith('mid') and self.equals(st, ('op', '-', strip_old(a), ('c', 1))) and (len(ci.args) < 2 or ci.args[1] == ('c', -1)), 'the value',
                        'the value of a macro is not all that stands behind the equals sign')
                st.flags[('part',)] = 'value'
        elif n == 'trimmed' and ci.recv is not None:
            st.flags[('part',)] = self.lab(st, ci.recv)
            st.flags[('trim',)] = 1
        elif n == 'removeInlineComments':
            s = self.lab(st, ci.args[0]) if ci.args else None
            self.ck(st, fr, node, s == 'value', 'comments of values', 'comments are looked for in something else than the value')
            st.flags[('comment',)] = 1
            st.flags[('part',)] = 'arg'
        elif n in ('setMacroValue', 'defineEnvironmentMacroValue', 'predefineValue', 'internalSetMacroValue'):
            self.ck(st, fr, node, ('set',) not in st.flags, 'defined once', 'a macro is defined twice')
            self.ck(st, fr, node, n == 'setMacroValue' and len(ci.args) > 1 and self.lab(st, ci.args[0]) == 'name', 'the name is defined', 'the macro that is defined has not the name that stands before the equals sign')
            self.ck(st, fr, node, len(ci.args) > 1 and self.lab(st, ci.args[1]) == 'value' and ('comment',) in st.flags, 'the value is defined', 'the macro does not get the value that stands behind the equals sign, without comment')
            self.ck(st, fr, node, ('lab!', 'name') in st.flags and ('lab!', 'value') in st.flags, 'blanks around', 'blanks around the name or the value belong to them')
            st.flags[('set',)] = 1

    def lab(self, st, t):
        t = strip_old(t)
        v = st.flags.get(('pl', t))
        if v is None and t[0] == 'm' and callname(t) in ('trimmed', 'left', 'mid'):
            v = self.lab(st, t[2])
            if v is None and self.isline(t[2]):
                v = 'name' if callname(t) == 'left' else 'value'
        if v is None and t[0] == 'obj' and len(t) > 2 and isinstance(t[2], tuple):
            u = t[2][0] if t[2] and isinstance(t[2][0], tuple) else t[2]
            v = self.lab(st, u) if u else None
        return v

    def after(self, eng, st, fr, node, ci, res):
        p = st.flags.pop(('part',), None)
        tr = st.flags.pop(('trim',), None)
        if p == 'arg':
            for a, l in zip(ci.args, ci.alocs):
                t = eng.read(st, l) if l is not None else None
                if t is not None:
                    st.flags[('pl', strip_old(t))] = 'value'
            return
        if p is not None and isinstance(res, tuple):
            st.flags[('pl', strip_old(res))] = p
            if tr:
                st.flags[('lab!', p)] = 1

    def write(self, eng, st, fr, node, loc, val, op):
        g = st.flags.get
        if val is not None and op in ('+=', '-=') and ('i',) in st.flags:
            st.flags[('par',)] = 1
            if g(('is', 0, 40)) is True or g(('is', 0, 41)) is True:
                self.ck(st, fr, node, g(('is', 0, 40 if op == '+=' else 41)) is True, 'levels of parentheses', 'the level of parentheses is counted in the wrong direction')
                st.flags[('lev',)] = 1

    def loop(self, eng, st, fr, node, what, lid):
        g = st.flags.get
        if what == 'back' and ('i',) in st.flags:
            other = g(('is', 0, 40)) is True or g(('is', 0, 41)) is True
            self.ck(st, fr, node, not other or ('lev',) in st.flags, 'parentheses are counted', 'a parenthesis is not counted: an equals sign in a macro invocation may be taken for the one of the definition')
            l0 = self.level0(st)
            self.ck(st, fr, node, other or l0 is False or g(('is', 0, 61)) is False, 'the first equals sign', 'an equals sign outside of parentheses is passed over')
            self.ck(st, fr, node, other or l0 is False or g(('is', 0, 58)) is False, 'no colon before', 'a colon outside of parentheses is passed over: a description block is taken for a definition')
            ok, why = loop_complete(fr.fn.cfg.loops[lid])
            self.ck(st, fr, node, ok or 'starts at 1' in why, 'every character', 'not every character is looked at: ' + why)
        if what == 'back' and ('i',) not in st.flags:
            return
        for k in [k for k in st.flags if k[0] in ('is', 'at', 'i', 'i==', 'i>', 'level0', 'lev')]:
            del st.flags[k]
        if what == 'back':
            for k, v in list(st.env.items()):
                if k[0] == 'v' and k[1] == fr.id and v[0] in ('c', 'op') and k[2] in self.counted(fr.fn):
                    st.env[k] = ('r', fr.id, -1 - lid, 'var%s' % (k[2],))
            soft(st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        g = st.flags.get
        if ('set',) in st.flags:
            self.ck(st, fr, node, val == ('c', 1), 'what is a definition', 'a line that defined a macro is read again as something else')
        else:
            self.ck(st, fr, node, val == ('c', 0) and not (g(('is', 0, 61)) is True and self.level0(st) is True), 'what is none', 'a line that defines a macro does not define it')


class Inline(Rule):
    """removeInlineComments"""
    R = 'C35.comment'

    def ck(self, st, fr, node, c, key, msg):
        self.rep.check(c, self.R, fr, node, key, msg, st)

    def isline(self, l):
        return any(isinstance(x, tuple) and x and x[-1] == self.par for x in [strip_old(l)] + list(subterms(l)))

    def call(self, eng, st, fr, node, ci):
        n = short(ci.short)
        g = st.flags.get
        if n == 'indexOf' and ci.args and ci.args[0] == ('c', 35):
            if ('pos',) in st.flags:
                self.ck(st, fr, node, g(('esc',)) is True, 'the first #', 'a # that is not escaped is passed over')
                self.ck(st, fr, node, ('rem',) in st.flags, 'carets are removed', 'the caret before a # stays')
                # the # has moved one place to the left
                f = lin(strip_old(ci.args[1])) if len(ci.args) > 1 else (('c', 0), 0)
                p = g(('pos',))
                self.ck(st, fr, node, f in (p, g(('moved',))), 'the next #', 'the search goes on at the wrong character: the # that begins a comment may be passed over')
            else:
                self.ck(st, fr, node, len(ci.args) < 2 or strip_old(ci.args[1]) == ('c', 0), 'from the begin', 'the search does not begin at the first character')
            for k in ('esc', 'rem', 'neg', 'zero', 'moved'):
                st.flags.pop((k,), None)
            st.flags[('idx',)] = 1
        if ci.recv is not None and self.isline(rloc(ci)):
            if n == 'remove':
                p = g(('pos',))
                a = lin(strip_old(ci.args[0]))
                ok = g(('esc',)) is True and len(ci.args) > 1 and ci.args[1] == ('c', 1) and p is not None and a in ((p[0], p[1] - 1), g(('down',)))
                self.ck(st, fr, node, ok, 'the caret is removed', 'something else than the caret before a # is removed')
                st.flags[('rem',)] = 1
            elif n in ('truncate', 'chop', 'clear'):
                p = g(('pos',))
                ok = n == 'truncate' and g(('neg',)) is False and lin(strip_old(ci.args[0])) == p and (g(('esc',)) is False or g(('zero',)) is True)
                self.ck(st, fr, node, ok, 'comments', 'text is removed that is no comment, or a part of a comment stays')
                st.flags[('cut',)] = 1

    def after(self, eng, st, fr, node, ci, res):
        if st.flags.pop(('idx',), None):
            st.flags[('pos',)] = lin(strip_old(res))

    def write(self, eng, st, fr, node, loc, val, op):
        p = st.flags.get(('pos',))
        l = strip_old(loc)
        if op == '-=' and val is not None and p is not None and l[0] == 'loc':
            old = st.env.get(('v', l[1], l[2]))
            if old is not None and lin(strip_old(old)) == p:
                # counted down by one
                st.flags[('down',)] = lin(strip_old(val))
                d = lin(strip_old(val))
                st.flags[('moved',)] = (d[0], d[1] + 1)

    def branch(self, eng, st, fr, node, t, truth):
        x, v = strip_old(t), truth
        while x[0] == 'op' and x[1] == '!' and len(x) == 3:
            x, v = strip_old(x[2]), not v
        p = st.flags.get(('pos',))
        if p is None or x[0] != 'op' or len(x) != 4:
            return
        a, b = strip_old(x[2]), strip_old(x[3])
        if x[1] == '==' and ('c', 94) in (a, b):
            o = b if a == ('c', 94) else a
            self.ck(st, fr, node, o[0] == 'elem' and lin(strip_old(o[2])) == (p[0], p[1] - 1), 'the caret before', 'another character than the one before the # is taken for its escape')
            st.flags[('esc',)] = v
            return
        ne = None
        if x[1] == '<' and b == ('c', 0) and lin(a) == p:
            ne = v
        elif x[1] == '==' and ('c', -1) in (a, b) and p in (lin(a), lin(b)):
            ne = v
        elif x[1] == '<' and a == ('c', -1) and lin(b) == p:
            ne = not v
        elif x[1] == '<' and a == ('c', 0) and lin(b) == p:
            if v:
                ne = False
            else:
                st.flags[('zero',)] = True
        elif x[1] == '<' and b == ('c', 1) and lin(a) == p:
            if v:
                st.flags[('zero',)] = True
            else:
                ne = False
        if ne is not None and st.flags.setdefault(('neg',), ne) != ne:
            return False

    def loop(self, eng, st, fr, node, what, lid):
        if what != 'back':
            return
        for k, v in list(st.env.items()):
            if k[0] == 'v' and k[1] == fr.id and st.flags.get(('pos',)) is not None and v[0] in ('m', 'r', 'op', 'old'):
                p, d = st.flags[('pos',)], st.flags.get(('down',))
                w = lin(strip_old(v))
                n = ('r', fr.id, -1 - lid, 'var%s' % (k[2],))
                if w == p and d is None:
                    st.flags[('pos',)] = lin(n)
                    st.env[k] = n
                elif w == d:
                    st.env[k] = n
                    st.flags[('down',)] = lin(n)
                    st.flags[('moved',)] = (lin(n)[0], lin(n)[1] + 1)
        st.flags.pop(('down',), None)
        soft(st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        g = st.flags.get
        self.ck(st, fr, node, ('pos',) in st.flags and (g(('neg',)) is True or ('cut',) in st.flags), 'comments are removed', 'a comment stays in the value')


@check('C35')
def c35(prog, rep):
    rep.rule('C35.define', 'A line defines a macro if an equals sign stands outside of parentheses with no colon outside of parentheses before it; its name is what stands before the first such sign, its value all that stands behind, both without blanks around and the value without comment.')
    rep.rule('C35.comment', 'A comment of a value or directive begins at the first # without caret before it; the carets of the others are removed.')
    for f in prog.fns('Preprocessor::parseMacro'):
        mon = Definition(prog, rep)
        mon.par = f.d['params'][0]['n']
        mon.pars = [mon.par]
        run_roots(prog, rep, mon, [f], noinline=('Preprocessor::removeInlineComments', 'MacroTable::setMacroValue'), limit=100)
    for f in prog.fns('Preprocessor::removeInlineComments'):
        mon = Inline(prog, rep)
        mon.par = f.d['params'][0]['n']
        run_roots(prog, rep, mon, [f], limit=100, small=0, heapkeep=())
    for r, n in (('C35.define', 6), ('C35.comment', 4)):
        rep.require(r, n)
