"""C27: conditional directives."""
from .common import *
from .registry import check
from .process import poly
from .expand import Text, number
from .macros import Site

PP = NS + 'Preprocessor::'
IFS = ('IF', 'IFDEF', 'IFNDEF')
ELSEIFS = ('ELSEIF', 'ELSEIFDEF', 'ELSEIFNDEF')
KNOWN = IFS + ELSEIFS + ('ELSE', 'ENDIF', 'CMDSWITCHES', 'ERROR', 'MESSAGE', 'INCLUDE', 'UNDEF')
# stands for directives that do not exist; one of them is similar to others
OTHER = ('?', 'IFX', 'ELSEX')
STACK = 'Preprocessor::m_conditionalStack'
EFFECTS = {'setMacroValue': 'define a macro', 'internalOpenFile': 'open a file', 'undefineMacro': 'undefine a macro', 'puts': 'print text', 'expandMacros': 'expand macros',
           'evaluateExpandedExpression': 'evaluate an expression'}


def plain(term, truth):
    t, v = term, truth
    while t[0] == 'op' and t[1] == '!' and len(t) == 3:
        t, v = t[2], not v
    return t, v


def narrow(cands, term, truth):
    """The directives that are possible if a condition on the name of the directive is (not) met; None if it is no such condition."""
    t, v = plain(strip_old(term), truth)
    if t[0] == 'op' and t[1] == '==' and len(t) == 4:
        s, x = (t[2], t[3]) if t[2][0] == 's' else (t[3], t[2])
        if s[0] == 's' and s[1] in KNOWN and x[0] != 's':
            return x, frozenset(c for c in cands if (c == s[1]) == v)
        return None
    n = callname(t)
    if n in ('startsWith', 'endsWith', 'contains') and len(t) > 3 and t[3] and t[3][0][0] == 's':
        s = t[3][0][1]
        if not s.isupper() or not any(s in k for k in KNOWN):
            return None
        f = {'startsWith': lambda c: c.startswith(s), 'endsWith': lambda c: c.endswith(s), 'contains': lambda c: s in c}[n]
        return t[2], frozenset(c for c in cands if f(c) == v)
    return None


def top_of(t):
    t = strip_old(t)
    return t[0] == 'elem' and is_field(t[1], STACK) and t[2] == ('s', 'last')


class Named(Rule):
    """Keeps the set of the directives a path stands for, and whether there are open conditionals."""
    NOINLINE = ('Preprocessor::isPreprocessingDirective', 'Preprocessor::evaluateExpandedExpression', 'Preprocessor::skipUntilNextMatchingConditional', 'Preprocessor::currentFileName', 'Preprocessor::lineNumber',
                'Preprocessor::findIncludeFile', 'Preprocessor::internalOpenFile', 'Preprocessor::basicReadLine', 'Preprocessor::completePreprocessingDirectiveLine',
                'MacroTable::expandMacros')

    def inline(self, eng, fn):
        return fn.cls == NS + 'Preprocessor' and not any(fn.name.endswith(o) for o in self.NOINLINE)

    def fork(self, st, fr, node, term, put):
        """Continues with both values of a condition; put(state, value) returns False for impossible ones."""
        res = []
        for v in (True, False):
            s = st.copy()
            if put(s, v) is not False:
                s.trace = (s.trace, fr.fn.short, fr.fn.file, node.line, '%s is %s' % (show(term), str(v).lower()))
                res.append((s, ('c', int(v))))
        return res

    def compare(self, st, fr, node, ci):
        """A comparison of the name of the directive, decided at once."""
        x = t = None
        if ci.short in ('operator==', 'operator!='):
            xs = ([ci.recv] if ci.recv is not None else []) + list(ci.args)
            if len(xs) == 2:
                t = ('op', '==') + tuple(xs)
        elif ci.short in ('startsWith', 'endsWith', 'contains') and ci.recv is not None and ci.args:
            t = ('m', ci.name, ci.recv, tuple(ci.args))
        if t is None or narrow(self.dirs(st), t, True) is None:
            return None
        neg = ci.short == 'operator!='
        return self.fork(st, fr, node, ('op', '!', t) if neg else t, lambda s, v: self.named(s, t, v != neg))

    def dirs(self, st):
        return st.flags.get(('dirs',), frozenset(KNOWN + OTHER))

    def named(self, st, term, truth):
        """False if the path is impossible."""
        r = narrow(self.dirs(st), term, truth)
        if r is not None:
            if not r[1]:
                return False
            st.flags[('dirs',)] = r[1]
        return True

    def depth(self, st, term, truth):
        t, v = plain(strip_old(term), truth)
        e = None
        if t[0] == 'op' and t[1] == '==' and len(t) == 4:
            c, x = (t[2], t[3]) if t[2][0] == 'c' else (t[3], t[2])
            if c == ('c', 0) and x[0] == 'size' and is_field(x[1], STACK):
                e = v
        elif t[0] == 'size' and is_field(t[1], STACK):
            e = not v
        elif t[0] == 'op' and t[1] == '<' and len(t) == 4:
            if t[2] == ('c', 0) and t[3][0] == 'size' and is_field(t[3][1], STACK):
                e = not v
            elif t[3] == ('c', 1) and t[2][0] == 'size' and is_field(t[2][1], STACK):
                e = v
        elif callname(t) == 'isEmpty' and is_field(t[2], STACK):
            e = v
        if e is not None and ('pops',) not in st.flags and ('push',) not in st.flags:
            st.flags[('open',)] = int(not e)

    def isdirective(self, st, term, truth):
        t, v = truths(term, truth)
        if resname(t) == 'isPreprocessingDirective':
            st.flags[('isdir',)] = int(v)
            if not v:
                st.flags.pop(('dirs',), None)

    def deep(self, st, fr, node):
        self.rep.check(st.flags.get(('open',)) == 1, 'C27.unmatched', fr, node, 'there is an open conditional when its state is used',
                       'the state of a conditional is used although none may be open', st)


class Directive(Named):
    """parsePreprocessingDirective"""

    def ck(self, st, fr, node, c, rule, key, msg):
        self.rep.check(c, 'C27.' + rule, fr, node, key, msg, st)

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.vals = set()
            self.line = ('p', fr.fn.key, fr.fn.d['params'][0]['n'])

    def branch(self, eng, st, fr, node, term, truth):
        if not self.named(st, term, truth):
            return False
        self.isdirective(st, term, truth)
        self.depth(st, term, truth)
        t, v = truths(term, truth)
        if top_of(t) and ('pops',) not in st.flags and ('push',) not in st.flags:
            st.flags[('top',)] = int(v)
        c = resname(t)
        if c == 'evaluateExpandedExpression':
            st.flags[('expr',)] = int(v)

    def write(self, eng, st, fr, node, loc, val, op):
        if loc[0] == 'elem' and top_of(loc):
            self.pop(st, fr, node)
            self.push(st, fr, node, val)

    def pop(self, st, fr, node):
        self.deep(st, fr, node)
        st.flags[('pops',)] = st.flags.get(('pops',), 0) + 1
        self.ck(st, fr, node, ('push',) not in st.flags, 'open', 'a conditional is not closed in the line that opened it', 'a conditional is closed in the line that opened it')

    def push(self, st, fr, node, val):
        self.ck(st, fr, node, ('push',) not in st.flags, 'open', 'a line opens one conditional', 'a line opens more than one conditional')
        v = st.truth(val) if val is not None else None
        st.flags[('push',)] = int(v) if v is not None else ('t', val)

    def after(self, eng, st, fr, node, ci, res):
        if ci.short == 'isPreprocessingDirective':
            for l in ci.alocs or ():
                if l is not None and l[0] == 'loc':
                    self.vals.add(('v', l[1], l[2]))

    def isvalue(self, st, t):
        t = strip_old(t)
        return any(strip_old(st.env.get(k, ('none',))) == t for k in self.vals)

    def call(self, eng, st, fr, node, ci):
        s = ci.short
        if s == 'top' and is_container(ci, STACK) or s in ('last', 'back') and is_container(ci, STACK):
            self.deep(st, fr, node)
        elif s in ('push', 'append', 'push_back', 'operator<<') and is_container(ci, STACK):
            self.push(st, fr, node, ci.args[0])
        elif s in ('pop', 'removeLast', 'takeLast', 'pop_back') and is_container(ci, STACK):
            self.pop(st, fr, node)
        elif is_container(ci, STACK) and not ci.e.get('const') and s not in ('detach', 'reserve', 'isEmpty', 'size', 'count', 'operator[]'):
            self.ck(st, fr, node, False, 'open', '', 'open conditionals are changed (%s)' % s)
        elif s == 'skipUntilNextMatchingConditional':
            self.ck(st, fr, node, ('skip',) not in st.flags, 'skip', 'lines are skipped once', 'lines are skipped twice')
            st.flags[('skip',)] = 1
            # skipping may close the conditional
            d = self.dirs(st)
            if d & set(IFS):
                self.ck(st, fr, node, ('push',) in st.flags, 'open', 'a conditional is open while its text is skipped', 'text is skipped before the conditional is open')
        elif s == 'error':
            st.flags[('err',)] = 1
        elif s == 'isPreprocessingDirective':
            self.ck(st, fr, node, bool(ci.args) and resname(ci.args[0]) == 'expandMacros', 'text', 'macros in a directive are expanded', 'macros in a directive are not expanded')
        elif s == 'expandMacros' and ci.args:
            self.ck(st, fr, node, strip_old(ci.args[0]) == self.line, 'text', 'the macros of the line are expanded', 'something else than the line is expanded')
        elif s in ('isMacroDefined', 'evaluateExpandedExpression', 'undefineMacro', 'findIncludeFile', 'puts') and ci.args:
            vals = [self.isvalue(st, x) for a in ci.args for x in subterms(a)] + [self.isvalue(st, l) for l in ci.alocs or () if l is not None]
            locs = [('v', x[1], x[2]) in self.vals for l in tuple(ci.alocs or ()) + tuple(ci.args) if l is not None for x in subterms(l) if x[0] == 'loc']
            self.ck(st, fr, node, any(vals) or any(locs) or not self.vals, 'text', '%s gets the text of the directive' % s, '%s does not get the text behind the directive' % s)
            if s in ('undefineMacro', 'puts'):
                st.flags[('did', s)] = 1
        elif s == 'internalOpenFile':
            self.ck(st, fr, node, bool(ci.args) and resname(ci.args[0]) == 'findIncludeFile', 'effect', 'the file that was found is included', 'the file that is included was not searched for')
            st.flags[('did', s)] = 1
        elif s == 'setMacroValue':
            st.flags[('did', s)] = 1
        if s == 'isMacroDefined':
            return self.fork(st, fr, node, ('r', 0, 0, 'isMacroDefined()'), lambda x, v: x.flags.__setitem__(('def',), int(v)))
        return self.compare(st, fr, node, ci)

    DID = {'MESSAGE': 'puts', 'INCLUDE': 'internalOpenFile', 'UNDEF': 'undefineMacro'}

    def ret(self, eng, st, fr, node, val):
        if fr.parent is None and val is not None:
            t = st.truth(val)
            st.flags[('ret',)] = int(t) if t is not None else '?'

    def cond(self, st, d):
        g = st.flags.get
        if d.endswith('NDEF'):
            c = g(('def',))
            return None if c is None else 1 - c
        if d.endswith('DEF'):
            return g(('def',))
        return g(('expr',))

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None:
            return
        g = st.flags.get
        ck = lambda c, rule, key, msg: self.ck(st, fr, None, c, rule, key, msg)
        dirs = self.dirs(st) if g(('isdir',)) == 1 else frozenset()
        isopen = g(('open',))
        if kind != 'ret':
            if ('err',) not in st.flags:
                return
            if g(('isdir',)) != 1:
                ck(False, 'unmatched', '', 'a line that is no directive is an error')
            for d in sorted(dirs):
                ok = d in OTHER or d == 'ERROR' or (d == 'ELSE' or d == 'ENDIF' or d in ELSEIFS) and isopen == 0
                ck(ok, 'unmatched', 'only unknown and unmatched directives are errors', '!%s can be an error although it is known and matched' % d)
            return
        acts = [k[1] for k in st.flags if k[0] == 'did']
        if g(('isdir',)) != 1:
            ck(not acts and ('skip',) not in st.flags and ('push',) not in st.flags and ('pops',) not in st.flags, 'effect', 'a line that is no directive has no effect here',
               'a line that is no directive is treated as one')
            ck(g(('ret',)) == 0, 'effect', 'a line that is no directive is passed on', 'a line that is no directive is dropped')
            return
        ck(g(('ret',)) == 1, 'effect', 'a directive is not passed on', 'a directive is passed on as a line of the makefile')
        push, pops, skip, top = g(('push',)), g(('pops',), 0), ('skip',) in st.flags, g(('top',))
        if isinstance(push, tuple):
            t = st.truth(push[1])
            push = int(t) if t is not None else push
        if push is not None and pops == 1 and push == top:
            push, pops = None, 0
        for d in sorted(dirs):
            if d in OTHER or d == 'ERROR':
                ck(False, 'unknown', '', 'a line with %s is accepted' % ('an unknown directive' if d in OTHER else '!ERROR'))
                continue
            want = self.DID.get(d)
            ck(want is None or want in acts, 'effect', '!%s has its effect' % d, '!%s has no effect' % d)
            ck(not [a for a in acts if a != want], 'effect', '!%s has no other effect' % d, '!%s does what another directive does' % d)
            if d in IFS:
                c = self.cond(st, d)
                ck(c is not None, 'branch', '!%s looks at its condition' % d, '!%s does not look at its condition' % d)
                ck(push is not None and pops == 0, 'open', '!%s opens a conditional' % d, '!%s does not open one conditional' % d)
                if c is not None:
                    ck(skip == (not c), 'branch', 'the text behind !%s is skipped if its condition is not met' % d,
                       'the text behind !%s is %s although its condition is %smet' % (d, 'skipped' if skip else 'used', '' if c else 'not '))
                    if push is not None:
                        ck(push == 1 - c, 'once', '!%s notes whether its text is used' % d, '!%s does not note whether its text is used' % d)
            elif d == 'ELSE' or d in ELSEIFS:
                ck(isopen == 1, 'unmatched', '!%s without !IF is an error' % d, '!%s without !IF is accepted' % d)
                ck(top is not None, 'once', '!%s looks whether a text was used already' % d, '!%s does not look whether a text was used already' % d)
                ck((push is None and pops == 0) or (push is not None and pops == 1), 'open', '!%s neither opens nor closes a conditional' % d, '!%s opens or closes a conditional' % d)
                c = 1 if d == 'ELSE' else self.cond(st, d)
                if top == 0:
                    ck(skip, 'once', 'only one text of a conditional is used (!%s)' % d, 'the text behind !%s is used although another one was' % d)
                    ck(push is None or push == 0, 'once', 'what was used stays noted (!%s)' % d, '!%s forgets that a text was used' % d)
                elif top == 1:
                    ck(c is not None, 'branch', '!%s looks at its condition' % d, '!%s does not look at its condition' % d)
                    if c is not None:
                        ck(skip == (not c), 'branch', 'the text behind !%s is skipped if its condition is not met' % d,
                           'the text behind !%s is %s although its condition is %smet' % (d, 'skipped' if skip else 'used', '' if c else 'not '))
                        ck(push == 0 if c else push is None or push == 1, 'once', '!%s notes whether its text is used' % d, '!%s does not note whether its text is used' % d)
            elif d == 'ENDIF':
                ck(isopen == 1, 'unmatched', '!ENDIF without !IF is an error', '!ENDIF without !IF is accepted')
                ck(pops == 1 and push is None, 'open', '!ENDIF closes a conditional', '!ENDIF does not close one conditional')
                ck(not skip, 'branch', 'the text behind !ENDIF is used', 'the text behind !ENDIF is skipped')
            else:
                ck(pops == 0 and push is None and not skip, 'open', '!%s does not change conditionals' % d, '!%s changes conditionals' % d)


class Skip(Named, Text):
    """skipUntilNextMatchingConditional"""

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.texts = set()
        self.counters = {}

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.root = fr

    def ck(self, st, fr, node, c, rule, key, msg):
        self.rep.check(c, 'C27.' + rule, fr, node, key, msg, st)

    def first(self, eng, st, fr, node, lid, vals):
        if fr.parent is None:
            for k, v in vals.items():
                if v is not None and v[0] == 'c':
                    if self.counters.setdefault(k, v[1]) != v[1]:
                        self.counters[k] = None

    ITER = ('dirs', 'isdir', 'nest', 'null', 'pops', 'open', 'back', 'compl', 'bang')

    def start(self, eng, st, fr, node, lid):
        if fr.parent is None:
            for f in [f for f in st.flags if f[0] in self.ITER]:
                del st.flags[f]

    def sym(self, fr, lid, k):
        return ('r', fr.id, number(fr.fn, lid), 'at%s' % (k[2],))

    def branch(self, eng, st, fr, node, term, truth):
        if not self.named(st, term, truth):
            return False
        t0 = plain(term, truth)
        if t0[0][0] == 'c' and bool(t0[0][1]) != t0[1]:
            return False
        self.isdirective(st, term, truth)
        self.depth(st, term, truth)
        t, v = truths(term, truth)
        if callname(t) == 'isNull' and ('compl',) in st.flags and v:
            return False        # text is only appended to a line that is completed, see C27.skip
        if callname(t) == 'isNull' and any(resname(x) == 'basicReadLine' for x in subterms(t[2])):
            if st.flags.get(('null',), int(v)) != int(v):
                return False
            st.flags[('null',)] = int(v)
        if callname(t) == 'startsWith' and len(t) > 3 and t[3] and t[3][0] == ('c', 33):
            st.flags[('bang',)] = int(v)
        z = self.zero(t0[0])
        if z is not None:
            v = t0[1] if z else not t0[1]
            if st.flags.get(('nest',), int(not v)) != int(not v):
                return False
            st.flags[('nest',)] = int(not v)

    def zero(self, t):
        """Does a condition say that the nesting depth is 0 (True) or not (False)?"""
        t = strip_old(t)
        issym = lambda x: x[0] == 'r' and isinstance(x[3], str) and x[3].startswith('at') and x[2] < 0
        if issym(t):
            return False
        if t[0] == 'op' and len(t) == 4:
            if t[1] == '==' and (t[2] == ('c', 0) and issym(t[3]) or t[3] == ('c', 0) and issym(t[2])):
                return True
            if t[1] == '<' and t[2] == ('c', 0) and issym(t[3]):
                return False
            if t[1] == '<' and t[3] == ('c', 1) and issym(t[2]):
                return True
        return None

    def call(self, eng, st, fr, node, ci):
        s = ci.short
        if s == 'basicReadLine':
            st.flags.pop(('null',), None)
        if s == 'completePreprocessingDirectiveLine':
            st.flags[('compl',)] = 1
        elif s == 'isPreprocessingDirective':
            self.ck(st, fr, node, ('compl',) in st.flags or st.flags.get(('bang',)) == 0, 'skip', 'a directive is read to its end before it is looked at',
                    'a directive that is continued in the next line is not read to its end')
            self.ck(st, fr, node, st.flags.get(('null',)) == 0, 'skip', 'the end of the file ends skipping', 'skipping does not end at the end of the file')
        elif s in ('pop', 'removeLast', 'takeLast') and is_container(ci, STACK):
            self.deep(st, fr, node)
            st.flags[('pops',)] = 1 + st.flags.get(('pops',), 0)
        elif is_container(ci, STACK) and not ci.e.get('const') and s not in ('detach', 'isEmpty', 'size', 'count'):
            self.ck(st, fr, node, False, 'open', '', 'open conditionals are changed while skipping (%s)' % s)
        elif is_container(ci, 'Preprocessor::m_linesPutBack') and not ci.e.get('const'):
            ok = s in ('append', 'push_back', 'operator<<', 'prepend', 'push_front')
            self.ck(st, fr, node, ok, 'skip', 'the line that ends skipping is put back', 'lines that were put back are changed (%s)' % s)
            if ok:
                a = strip_old(ci.args[0])
                self.ck(st, fr, node, a[0] == 'f' and a[2].endswith('::content'), 'skip', 'the line itself is put back', 'something else than the line is put back')
                st.flags[('back',)] = 1
        elif s == 'error':
            st.flags[('err',)] = 1
        elif s in EFFECTS or s == 'findIncludeFile':
            self.ck(st, fr, node, False, 'quiet', '', 'text that is skipped can %s' % EFFECTS.get(s, 'open a file'))
        return self.compare(st, fr, node, ci)

    def kinds(self, st):
        if st.flags.get(('isdir',)) != 1:
            return {'other'}
        r = set()
        for d in self.dirs(st):
            if d == '?':
                r.add('other')
            elif d.startswith('IF'):
                r.add('if' if d != 'IFX' else 'x')
            elif d.startswith('ELSE'):
                r.add('else' if d != 'ELSEX' else 'x')
            elif d == 'ENDIF':
                r.add('endif')
            else:
                r.add('other')
        r.discard('x')
        return r

    def done(self, eng, st, fr, node, lid):
        if fr.parent is not None:
            return
        self.looped = True
        kinds = self.kinds(st)
        ck = lambda c, key, msg: self.ck(st, fr, node, c, 'nested', key, msg)
        deltas = {}
        for k, v0 in self.counters.items():
            if v0 is None or k[1] != fr.id:
                continue
            p = poly(st.env.get(k, ('none',)))
            s = self.sym(fr, lid, k)
            if p is None or any(a not in (1, s) for a in p) or p.get(s, 0) != 1:
                continue
            deltas[k] = (p.get(1, 0), v0)
        st.flags[('d',)] = 1
        del st.flags[('d',)]
        if not deltas:
            ck(False, 'nested conditionals are counted', 'nested conditionals are not counted')
            return
        nest = st.flags.get(('nest',))
        ck(('pops',) not in st.flags and ('back',) not in st.flags, 'nested conditionals are not closed', 'a conditional is closed by a directive that does not end skipping')
        for kd in sorted(kinds):
            ds = {d for d, v0 in deltas.values() if v0 == 0}
            if kd == 'if':
                ck(1 in ds, 'an !IF is counted', 'a nested !IF is not counted')
            elif kd == 'endif':
                ck(-1 in ds, 'an !ENDIF is counted', 'a nested !ENDIF is not counted')
                ck(nest == 1, 'the matching !ENDIF ends skipping', 'the matching !ENDIF does not end skipping')
            elif kd == 'else':
                ck(ds == {0}, 'a nested !ELSE is not counted', 'a nested !ELSE changes the depth')
                ck(nest == 1, 'the matching !ELSE ends skipping', 'the matching !ELSE does not end skipping')
            else:
                ck(ds == {0}, 'other lines are not counted', 'a line that is no conditional directive changes the depth')

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None:
            return
        ck = lambda c, rule, key, msg: self.ck(st, fr, node, c, rule, key, msg)
        kinds = self.kinds(st)
        g = st.flags.get
        if kind != 'ret':
            ck(('err',) not in st.flags or g(('open',)) == 0, 'unmatched', 'skipping is an error only without an open conditional', 'an error is reported while text is skipped')
            return
        if g(('null',)) == 1:
            ck(('back',) not in st.flags and ('pops',) not in st.flags, 'skip', 'the end of the file changes nothing', 'the end of the file closes a conditional')
            return
        ck(g(('nest',)) == 0, 'nested', 'only directives of this conditional end skipping', 'skipping may be ended by a directive of a nested conditional')
        ck(kinds <= {'else', 'endif'}, 'skip', 'only !ELSE and !ENDIF end skipping', 'skipping is ended by other lines than !ELSE and !ENDIF')
        if 'else' in kinds:
            ck(('back',) in st.flags and ('pops',) not in st.flags, 'skip', 'the !ELSE that ends skipping is read again', 'the !ELSE that ends skipping is lost, or closes the conditional')
        if 'endif' in kinds:
            ck(g(('pops',)) == 1 and ('back',) not in st.flags, 'skip', 'the !ENDIF that ends skipping closes the conditional', 'the !ENDIF that ends skipping does not close the conditional')


class End(Named):
    """readLine"""
    NOINLINE = Named.NOINLINE + ('Preprocessor::parsePreprocessingDirective', 'Preprocessor::parseMacro')

    def branch(self, eng, st, fr, node, term, truth):
        t, v = truths(term, truth)
        if callname(t) == 'isNull':
            st.flags[('null',)] = int(v)
        self.depth(st, term, truth)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            g = st.flags.get
            self.rep.check(g(('null',)) == 0 or g(('open',)) == 0, 'C27.unmatched', fr, node, 'the end of the makefile is an error if a conditional is open',
                           'a missing !ENDIF is not noticed', st)

    def loop(self, eng, st, fr, node, what, lid):
        for k in [k for k in st.flags]:
            del st.flags[k]
        if what == 'back':
            forget(st, fr, lid)


@check('C27')
def c27(prog, rep):
    rep.rule('C27.branch', 'the text behind a conditional directive is used exactly if its condition is met and no text of this conditional was used before')
    rep.rule('C27.once', 'what was used is noted, and looked at')
    rep.rule('C27.open', '!IF opens a conditional, !ENDIF closes one, nothing else does')
    rep.rule('C27.unmatched', '!ELSE and !ENDIF without !IF, and a missing !ENDIF, are errors, other known directives are none')
    rep.rule('C27.unknown', 'unknown directives and !ERROR are errors')
    rep.rule('C27.nested', 'conditionals in text that is skipped are skipped as a whole')
    rep.rule('C27.skip', 'skipping ends at the next !ELSE or !ENDIF of this conditional, or at the end of the file')
    rep.rule('C27.quiet', 'text that is skipped has no effect')
    rep.rule('C27.text', 'the condition is the text of the directive, with its macros expanded')
    rep.rule('C27.effect', 'a directive has its effect and is not passed on')
    f = prog.fn(PP + 'parsePreprocessingDirective')
    run_roots(prog, rep, Directive(prog, rep), [f], noinline=Named.NOINLINE, limit=200, heapkeep=None)
    g = prog.fn(PP + 'skipUntilNextMatchingConditional')
    m = Skip(prog, rep)
    m.looped = False
    run_roots(prog, rep, m, [g], noinline=Named.NOINLINE, limit=200, heapkeep=None, steps='all')
    run_roots(prog, rep, End(prog, rep), [prog.fn(PP + 'readLine')],
              noinline=End.NOINLINE, limit=60, heapkeep=None)
    # nothing that is called while skipping has an effect
    cl = prog.closure([g])
    for n in ('MacroTable::setMacroValue', 'MacroTable::expandMacros', 'MacroTable::undefineMacro', 'Preprocessor::internalOpenFile', 'Preprocessor::parsePreprocessingDirective'):
        for x in prog.fns(NS + n):
            rep.check(x not in cl, 'C27.quiet', Site(g), None, '%s is not called while skipping' % n, 'text that is skipped reaches %s' % n, None)
    # a line that is completed keeps its text
    done = [x for x in prog.fns(PP + 'completePreprocessingDirectiveLine')]
    for x in sorted(prog.closure(done), key=lambda x: x.key):
        if x.cls != NS + 'Preprocessor':
            continue
        for n in x.cfg.nodes:
            if n.op == 'assign' and isinstance(n.a, dict) and n.a.get('k') == 'mem' and n.a.get('n', '').endswith('MakefileLine::content'):
                rep.check(False, 'C27.skip', Site(x), n, '', 'completing a line replaces its text', None)
            if n.op == 'call' and not n.b.get('const') and isinstance(n.b.get('o'), dict) and n.b['o'].get('k') == 'mem' and n.b['o'].get('n', '').endswith('MakefileLine::content'):
                s = n.b.get('f', '').split('::')[-1]
                rep.check(s in ('operator+=', 'append', 'push_back') or s in ('isNull', 'isEmpty', 'reserve', 'detach'), 'C27.skip', Site(x), n, 'completing a line only appends to its text',
                          'completing a line changes its text (%s)' % s, None)
    # who changes the stack
    allowed, todo = {f, g}, [f, g]
    while todo:     # what was looked at
        for n in todo.pop().cfg.nodes:
            for t in prog.targets(n.b) if n.op == 'call' else ():
                if t not in allowed and t.cls == NS + 'Preprocessor' and not any(t.name.endswith(o) for o in Named.NOINLINE):
                    allowed.add(t)
                    todo.append(t)
    for h in sorted(prog.funcs.values(), key=lambda h: h.key):
        for n in h.cfg.nodes:
            if n.op == 'call' and not n.b.get('const') and any(x.get('k') == 'mem' and x.get('n') == NS + STACK for x in walk(n.b.get('o') or {})):
                s = n.b.get('f', '').split('::')[-1]
                if s in ('isEmpty', 'size', 'count'):
                    continue
                opens = s == 'clear' and any(y.get('k') == 'call' and y.get('f', '').endswith('::internalOpenFile') for m in h.cfg.nodes for e in (m.a, m.b) if isinstance(e, dict) for y in walk(e))
                rep.check(h in allowed or opens, 'C27.open', Site(h), n, '%s may change the open conditionals' % h.short, 'open conditionals are changed by %s' % h.short, None)
    rep.require('C27.branch', 8)
    rep.require('C27.nested', 4)
    rep.require('C27.unmatched', 4)
