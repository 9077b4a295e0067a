"""C32: which inference rule is applied to a target, and what it makes of it."""
import os
import re
from .common import *
from .common import Rule as BaseRule, EachRule as BaseEachRule
from .registry import check

RU = 'InferenceRule::'
RULES = 'DescriptionBlock::m_inferenceRules'
DEPENDENTS = 'DescriptionBlock::m_dependents'
COMMANDS = 'CommandContainer::m_commands'
ALL = 'Makefile::m_inferenceRules'
BYEXT = 'Parser::m_ruleIdxByToExtension'
SUFFIXES = 'Parser::m_suffixes'
BMR = 'Makefile::m_batchModeRules'
BMT = 'Makefile::m_batchModeTargets'
DEFAULT = ['.exe', '.obj', '.asm', '.c', '.cpp', '.cxx', '.bas', '.cbl', '.for', '.pas', '.res', '.rc']

# methods that are not looked into from apply; helpers extracted from it are
BASE = ('readLine', 'isEmptyLine', 'isDescriptionBlock', 'isInferenceRule', 'isDotDirective', 'createTarget', 'parseInferenceRule', 'parseDescriptionBlock', 'parseDotDirective',
        'parseCommand', 'parseCommandLine', 'parseInlineFiles', 'checkForCycles', 'resetCycleChecker', 'findRulesByTargetName', 'preselectInferenceRules', 'error', 'dependentTarget')

LINES = {  # line without comment -> captures or None
    '.c.obj:': ('', '.c', '', '.obj', ':'), '.cpp.obj::': ('', '.cpp', '', '.obj', '::'),
    '{src}.c{out}.obj:': ('{src}', '.c', '{out}', '.obj', ':'), '{src}.c.obj::': ('{src}', '.c', '', '.obj', '::'),
    '.c{a\\b c}.o:': ('', '.c', '{a\\b c}', '.o', ':'), '.c.obj: ': ('', '.c', '', '.obj', ':'), '.c.obj:\t ': ('', '.c', '', '.obj', ':'),
    '{}.c{}.obj:': ('{}', '.c', '{}', '.obj', ':'), '.c_1.o2:': ('', '.c_1', '', '.o2', ':'),
    'a.c.obj:': None, '.c:': None, '.c.obj': None, '.c.obj: x': None, '.obj .c:': None, 'x{a}.c{b}.obj:': None, '.c.obj:::': None, ' .c.obj:': None,
}


def short(n):
    return n.split('::')[-1]


def rloc(ci):
    return ci.rloc if ci.rloc is not None else ci.recv


def soft(st):
    """Forgets what is known about values, not the values."""
    st.facts.clear()
    st.heap.clear()


def named(t):
    """The target whose name a term is."""
    t = strip_old(t)
    if callname(t) == 'targetName':
        return strip_old(t[2])
    if fieldname(t) == 'm_targetName':
        return t[1]
    return None


with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'functions.txt')) as _f:
    FUNCTIONS = set(_f.read().split())


class Rule(BaseRule):
    """Looks into functions that were split off from the ones known."""

    def inline(self, eng, fn):
        return True if fn.name not in FUNCTIONS and not fn.d.get('lambda') else None


class EachRule(BaseEachRule, Rule):
    pass


class Strings(Rule):
    """What strings are put together from: flags ('str', term) -> parts."""

    def parts(self, st, t):
        v = st.flags.get(('str', t))
        if v is not None:
            return v
        if t[0] == 'old':
            return self.parts(st, t[1])
        if callname(t) == 'operator+':
            a = ([t[2]] if t[2] is not None else []) + list(t[3])
            return tuple(p for x in a if isinstance(x, tuple) for p in self.parts(st, x))
        if t[0] == 'obj' and len(t) == 3 and 'String' in t[1]:
            return self.parts(st, t[2])
        if t[0] == 'obj' and len(t) == 2 or t[0] == 'dflt':
            return ()
        if callname(t) in ('left', 'chopped') and t[3]:
            n = strip_old(t[3][0])
            base = self.parts(st, t[2])
            if callname(t) == 'chopped':
                return (('chop', base, n),)
            if n[0] == 'op' and n[1] == '-' and n[2] == ('size', strip_old(t[2])):
                return (('chop', base, n[3]),)
        return (strip_old(t),)

    def string(self, st, ci):
        """The parts of a string after a call that changes it, if known."""
        l = rloc(ci)
        if l is None or ci.recv is None or not ci.args:
            return None
        old = self.parts(st, ci.recv)
        n = short(ci.short)
        if n in ('append', 'operator+=', 'push_back', 'operator<<') and len(ci.args) == 1:
            return old + self.parts(st, ci.args[0])
        if n in ('prepend', 'push_front') or n == 'insert' and ci.args[0] == ('c', 0):
            return self.parts(st, ci.args[-1]) + old
        if n == 'chop':
            return (('chop', old, strip_old(ci.args[0])),)
        if n == 'truncate':
            a = strip_old(ci.args[0])
            if a[0] == 'op' and a[1] == '-' and a[2] == ('size', strip_old(ci.recv)):
                return (('chop', old, a[3]),)
        return None

    def call(self, eng, st, fr, node, ci):
        st.flags.pop(('strnew',), None)
        if 'QString' in ci.name and 'List' not in ci.name:
            v = self.string(st, ci)
            if v is not None:
                st.flags[('strnew',)] = v

    def after(self, eng, st, fr, node, ci, res):
        v = st.flags.pop(('strnew',), None)
        if v is not None and ci.rloc is not None:
            t = eng.read(st, ci.rloc)
            if t is not None:
                for k in [k for k in st.flags if k[0] == 'str' and k[1] == t]:
                    del st.flags[k]
                st.flags[('str', t)] = v

    def write(self, eng, st, fr, node, loc, val, op):
        if val is None or op not in ('+=',):
            return
        return None


def fieldname(t):
    s = strip_old(t)
    return s[2].split('::')[-1] if isinstance(s, tuple) and s and s[0] == 'f' else ''


def dependent_name(parts, optional):
    """Are the parts path + separator + (file name - extension of targets) + extension of dependents? Returns (ok, with path)."""
    p = [strip_old(x) for x in parts]
    path = False
    if p and fieldname(p[0]) == 'm_fromSearchPath':
        if len(p) < 2 or not (resname(p[1]) == 'separator' or p[1] in (('s', '/'), ('s', '\\'), ('c', 47), ('c', 92))):
            return False, False
        p = p[2:]
        path = True
    elif not optional:
        return False, False
    if len(p) != 2 or p[0][0] != 'chop' or fieldname(p[1]) != 'm_fromExtension':
        return False, path
    base, n = p[0][1], strip_old(p[0][2])
    if not (n[0] == 'size' and fieldname(n[1]) == 'm_toExtension'):
        return False, path
    return len(base) == 1 and resname(base[0]) in ('fileName', 'fileNameFromFilePath'), path


class Fields(Strings):
    """parseInferenceRule: what a rule remembers of its line."""
    R = 'C32.fields'

    def __init__(self, prog, rep):
        Strings.__init__(self, prog, rep)
        self.caps = {}      # value -> number of the capture

    def cap(self, t):
        t = strip_old(t)
        while isinstance(t, tuple) and t:
            if t in self.caps:
                return self.caps[t]
            if t[0] == 'm':
                t = strip_old(t[2])
            elif t[0] == 'size':
                t = strip_old(t[1])
            else:
                return None
        return None

    def base(self, st, t):
        seen = 0
        cut = False
        t = strip_old(t)
        while ('nosep', t) in st.flags and seen < 5:
            t = st.flags[('nosep', t)]
            cut = True
            seen += 1
        return t, cut

    def call(self, eng, st, fr, node, ci):
        n = short(ci.short)
        if n == 'removeDirSeparatorAtEnd' and ci.alocs and ci.alocs[0] is not None:
            st.flags[('cut',)] = strip_old(ci.args[0])
        if n == 'parseCommand':
            ok = len(ci.args) == 2 and mentions_field(ci.args[0], COMMANDS) and ci.args[1] == ('c', 1)
            self.rep.check(ok, self.R, fr, node, 'its commands', 'the commands of an inference rule are read as others, or are not put into the rule', st)
            st.flags[('cmds',)] = 1
        if grow_call(ci, ALL):
            self.rep.check(n in ('append', 'push_back', 'operator<<', 'operator+='), 'C32.order', fr, node, 'definition order', 'a rule is not added behind those defined before', st)
            st.flags[('stored',)] = 1
        if n == 'addInferenceRule':
            obj = strip_old(ci.args[-1])
            if ('added',) in st.flags:
                self.rep.bad(self.R, fr.fn.short, node.line, 'added once', 'a rule is added twice', st, file=fr.fn.file)
            st.flags[('added',)] = 1
            for f, what in (('m_batchMode', 'batch mode'), ('m_fromSearchPath', 'path of dependents'), ('m_fromExtension', 'extension of dependents'),
                            ('m_toSearchPath', 'path of targets'), ('m_toExtension', 'extension of targets')):
                v = st.flags.get(('fld', f))
                self.rep.check(v is not None and v, self.R, fr, node, what, 'the %s of an inference rule is not the one its line has' % what, st)
            self.rep.check(('cmds',) in st.flags, self.R, fr, node, 'commands are read', 'the commands of an inference rule are not read', st)

    def after(self, eng, st, fr, node, ci, res):
        if short(ci.short) == 'cap' and res is not None and ci.args and ci.args[0][0] == 'c' and fieldname(rloc(ci)) == 'm_rexInferenceRule':
            self.caps[strip_old(res)] = ci.args[0][1]
        v = st.flags.pop(('cut',), None)
        if v is not None and ci.alocs[0] is not None:
            st.flags[('nosep', strip_old(eng.read(st, ci.alocs[0])))] = v

    def write(self, eng, st, fr, node, loc, val, op):
        s = strip_old(loc)
        if s[0] != 'f' or not s[2].startswith(NS + RU) or val is None:
            return
        f = s[2].split('::')[-1]
        t = strip_old(val)
        if f == 'm_batchMode':
            ok = self.batch(t)
        elif f in ('m_fromExtension', 'm_toExtension'):
            ok = t in self.caps and self.cap(t) == (2 if f[2] == 'f' else 4)
        elif f in ('m_fromSearchPath', 'm_toSearchPath'):
            ok = self.path(st, t, 1 if f[2] == 'f' else 3)
        else:
            return
        st.flags[('fld', f)] = ok

    def batch(self, t):
        def val(t, cap):
            t = strip_old(t)
            if t[0] == 'c':
                return t[1]
            if t[0] == 's':
                return t[1]
            if t in self.caps:
                return cap if self.cap(t) == 5 else None
            if t[0] == 'obj' and len(t) == 3:
                return val(t[2], cap)
            if t[0] == 'size':
                x = val(t[1], cap)
                return len(x) if isinstance(x, str) else None
            if t[0] == 'op':
                a = [val(x, cap) for x in t[2:]]
                if None in a:
                    return None
                if t[1] == '!':
                    return not a[0]
                if t[1] == '==':
                    return a[0] == a[1]
                if t[1] == '<' and isinstance(a[0], int) and isinstance(a[1], int):
                    return a[0] < a[1]
            if callname(t) in ('operator==', 'endsWith', 'startsWith') and t[3]:
                a, b = val(t[2], cap), val(t[3][0], cap)
                if isinstance(a, str) and isinstance(b, str):
                    return a == b if callname(t) == 'operator==' else a.endswith(b)
            return None
        a, b = val(t, ':'), val(t, '::')
        return a is not None and b is not None and not a and bool(b)

    def path(self, st, t, n):
        t, cut = self.base(st, t)
        empty = [k[1] for k in st.flags if k[0] == 'empty' and st.flags[k] and self.cap(k[1]) == n]
        full = [k[1] for k in st.flags if k[0] == 'empty' and not st.flags[k] and self.cap(k[1]) == n]
        if t == ('s', '.') or t == ('c', 46):
            return bool(empty)
        if not cut or self.cap(t) != n:
            return False
        if t not in full:
            return False
        if t in self.caps:
            return ('short', n) in st.flags
        if callname(t) == 'mid' and len(t[3]) == 2 and t[3][0] == ('c', 1):
            x = strip_old(t[3][1])
            return x[0] == 'op' and x[1] == '-' and x[3] == ('c', 2) and x[2] == ('size', strip_old(t[2])) and strip_old(t[2]) in self.caps
        return False

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        if x[0] == 'size' and self.cap(x[1]) is not None:
            st.flags[('empty', strip_old(x[1]))] = not v
            if not v and strip_old(x[1]) in self.caps:
                st.flags[('short', self.cap(x))] = 1
        if x[0] == 'op' and x[1] == '<' and x[2][0] == 'size' and strip_old(x[2][1]) in self.caps and x[3][0] == 'c' and x[3][1] in (1, 2) and v:
            st.flags[('short', self.cap(x[2]))] = 1

    def loop(self, eng, st, fr, node, what, lid):
        pass

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            self.rep.check(('added',) in st.flags and ('stored',) in st.flags, self.R, fr, node, 'added', 'a rule that was read is not added to the makefile', st)


class Pattern(Rule):
    """Parser::Parser: the pattern of inference rules."""

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.pats = {}

    def call(self, eng, st, fr, node, ci):
        if short(ci.short) == 'setPattern' and ci.args:
            s = [x for x in subterms(ci.args[0]) if x[0] == 's']
            if len(s) == 1:
                self.pats[fieldname(rloc(ci))] = (s[0][1], fr, node)


class Line(Rule):
    """apply: a line is compared with the patterns without its comment."""

    def call(self, eng, st, fr, node, ci):
        n = short(ci.short)
        if n == 'removeInlineComments' and ci.alocs and ci.alocs[0] is not None:
            st.flags[('cut',)] = self.expanded(st, ci.args[0])
        if n in ('exactMatch', 'indexIn') and 'QRegExp' in ci.name and ci.args:
            f = fieldname(rloc(ci))
            if f in self.want:
                a = strip_old(ci.args[0])
                self.rep.check(st.flags.get(('plain', a)), 'C32.line', fr, node, f, 'a line is compared with the pattern of %s with its comment, or unexpanded' % self.want[f], st)
                self.mode[f] = n

    def expanded(self, st, t):
        return resname(strip_old(t)) == 'expandMacros'

    def after(self, eng, st, fr, node, ci, res):
        v = st.flags.pop(('cut',), None)
        if v is not None:
            st.flags[('plain', strip_old(eng.read(st, ci.alocs[0])))] = v

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'back' and fr.parent is None:
            for k in [k for k in st.flags if k[0] == 'plain']:
                del st.flags[k]
        if what == 'back':
            forget(st, fr, lid)


class Priority(Rule):
    """calculateInferenceRulePriorities."""

    def suffix(self, t):
        t = strip_old(t)
        return t[0] == 'elem' and (strip_old(t[1])[0] == 'p' or mentions_field(t[1], SUFFIXES)) and not mentions_field(t, ALL)

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        if callname(x) != 'compare' or not x[3]:
            return
        a, b = strip_old(x[2]), strip_old(x[3][0])
        if fieldname(b) == 'm_fromExtension':
            a, b = b, a
        ok = fieldname(a) == 'm_fromExtension' and self.suffix(b) and len(x[3]) > 1 and x[3][1] == ('c', 0)
        self.rep.check(ok, 'C32.prio', fr, node, 'comparison', 'the extension of the dependents of a rule is not compared with a suffix, without regard to case', st)
        f, lid = loopctx(fr, node)
        if f is not None:
            ok, why = loop_complete(f.fn.cfg.loops[lid])
            ok = ok and direction(f.fn.cfg.loops[lid], f.fn, lid) == 'up'
            self.rep.check(ok, 'C32.prio', fr, node, 'suffixes in order', 'not every suffix is looked at, in order', st)
        if not v:
            st.flags[('match',)] = (a[1], b[2], f.id if f else None, lid)
        if f is not None:
            up = f.fn.cfg.loops[lid].parent
            if up is not None:
                ok, why = loop_complete(f.fn.cfg.loops[up])
                self.rep.check(ok, 'C32.prio', fr, node, 'all rules', 'not every rule gets its priority: %s' % why, st)

    def write(self, eng, st, fr, node, loc, val, op):
        if fieldname(loc) != 'm_priority':
            return
        m = st.flags.get(('match',))
        l = strip_old(loc)
        ok = m is not None and strip_old(m[0]) == l[1] and (strip_old(m[1]) == strip_old(val) or m[1][0] == 'site')
        self.rep.check(ok, 'C32.prio', fr, node, 'priority', 'the priority of a rule is not the index of the suffix its dependents have', st)
        st.flags[('set',)] = 1

    def loop(self, eng, st, fr, node, what, lid):
        m = st.flags.get(('match',))
        if what == 'iter' and fr.fn.cfg.loops[lid].parent is None:
            st.flags[('outer', fr.id, lid)] = 1
        if what == 'back' and m is not None and m[2:] == (fr.id, lid):
            self.rep.bad('C32.prio', fr.fn.short, node.line, 'first suffix', 'the search goes on after the first suffix of a rule, a later one is used', st, file=fr.fn.file)
            st.flags.pop(('match',))
        if what == 'back' and st.flags.pop(('outer', fr.id, lid), None):
            if ('match',) in st.flags:
                self.rep.check(('set',) in st.flags, 'C32.prio', fr, node, 'set', 'a rule with a known suffix gets no priority', st)
            for k in ('match', 'set'):
                st.flags.pop((k,), None)
            soft(st)

    def exit(self, eng, st, fr, node, kind, val):
        if kind == 'ret':
            self.rep.check(not any(k[0] == 'outer' and k[1] == fr.id for k in st.flags), 'C32.prio', fr, node, 'rules after the first', 'the rules behind the first one with a suffix get no priority', st)


def direction(loop, fn=None, lid=None):
    for e in (loop.cond, getattr(loop, 'inc', None)):
        if isinstance(e, dict):
            for x in walk(e):
                if x.get('op') in ('--', 'p--', '-='):
                    return 'down'
    if loop.inc is None and loop.kind != 'foreach':
        if fn is None:
            return '?'
        return 'down' if any(n.loop == lid and isinstance(e, dict) and any(x.get('op') in ('--', 'p--', '-=') for x in walk(e))
                             for n in fn.cfg.nodes for e in (n.a, n.b)) or any(n.loop == lid and n.op == 'assign' and getattr(n, 'c', None) in ('-=', '--') for n in fn.cfg.nodes) else 'up'
    return 'up'


class Cache(EachRule):
    """apply: index of the rules by extension, in the order of their definition; priorities first."""
    EACH = 'C32.order'
    PER_ELEM = ('in',)

    def each_want(self, e):
        return is_field(strip_old(e[1]), ALL) or resname(e[1]) == 'inferenceRules' or is_field(strip_old(e[1]), 'Parser::m_activeTargets') and ('cached',) in self.fl

    def __init__(self, prog, rep):
        EachRule.__init__(self, prog, rep)
        self.hits = set()
        self.miss = set()

    fl = ()

    def elem(self, eng, st, fr, node, elem):
        e = elem[1] if elem[0] == 'old' else elem
        self.fl = st.flags
        EachRule.elem(self, eng, st, fr, node, elem)

    def call(self, eng, st, fr, node, ci):
        n = short(ci.short)
        l = rloc(ci)
        if n == 'calculateInferenceRulePriorities':
            ok = ci.args and (mentions_field(ci.args[0], SUFFIXES) or is_field(strip_old(ci.args[0]), SUFFIXES))
            self.rep.check(ok, 'C32.order', fr, node, 'suffixes', 'priorities are not calculated from the list of suffixes', st)
            st.flags[('prio',)] = 1
            self.prio = True
        if n in ('findRulesByTargetName', 'preselectInferenceRules'):
            self.rep.check(('prio',) in st.flags, 'C32.order', fr, node, 'priorities before ' + n, 'rules are looked for before their priorities are known', st)
            self.rep.check(('cached',) in st.flags or self.empty(st), 'C32.order', fr, node, 'index before ' + n, 'rules are looked for before they are in the index', st)
            if n == 'preselectInferenceRules':
                a = strip_old(ci.args[0])
                st.flags[('in',)] = 1
        if ci.recv is not None and n in GROW and l is not None and mentions_field(l, BYEXT) and ci.args:
            v = strip_old(ci.args[-1])
            f, lid = loopctx(fr, node)
            if f is None:
                return
            d = direction(f.fn.cfg.loops[lid])
            front = n in ('prepend', 'push_front', 'insert')
            keys = [x for x in subterms(l) if fieldname(x) == 'm_toExtension' and strip_old(x)[1] == v]
            self.rep.check(bool(keys), 'C32.order', fr, node, 'key of the index', 'the index of rules is not by the extension of their targets', st)
            self.rep.check(d != '?' and (d == 'down') == front, 'C32.order', fr, node, 'order of the index', 'the index does not have the rules in the order of their definition', st)
            st.flags[('in',)] = 1

    def empty(self, st):
        return True

    def loop(self, eng, st, fr, node, what, lid):
        EachRule.loop(self, eng, st, fr, node, what, lid)
        if what == 'back':
            soft(st)
            st.flags.pop(('in',), None)

    def each_done(self, eng, st, fr, node, elem):
        e = strip_old(elem)
        rules = is_field(strip_old(e[1]), ALL) or resname(e[1]) == 'inferenceRules'
        if rules:
            self.rep.check(('in',) in st.flags, 'C32.order', fr, node, 'each rule', 'a rule is missing in the index', st)
        else:
            (self.hits if ('in',) in st.flags else self.miss).add((fr.fn, e[2]))
        st.flags.pop(('in',), None)
        if rules:
            st.flags[('cached',)] = 1
        soft(st)

    def exit(self, eng, st, fr, node, kind, val):
        EachRule.exit(self, eng, st, fr, node, kind, val)


class Match(EachRule):
    """findRulesByTargetName."""
    EACH = 'C32.match'
    KEYS = ('prio', 'dir', 'app')

    def each_want(self, e):
        return mentions_field(e[1], BYEXT) and strip_old(e[1])[0] in ('elem', 'm')

    def call(self, eng, st, fr, node, ci):
        n = short(ci.short)
        if n == 'removeDirSeparatorAtEnd' and ci.alocs and ci.alocs[0] is not None:
            st.flags[('cut',)] = strip_old(ci.args[0])
        cur = self.each_current(st)
        if ci.recv is not None and n in GROW and ci.args and any(strip_old(ci.args[-1]) == c for c in cur):
            g = st.flags.get
            self.rep.check(g(('ext',)) is True or g(('rext',)) is True, 'C32.match', fr, node, 'extension', 'a rule is taken for a target that does not have its extension', st)
            self.rep.check(g(('prio',)) is False, 'C32.match', fr, node, 'suffix known', 'a rule is taken whose extension is not among the suffixes', st)
            self.rep.check(g(('dir',)) is True, 'C32.match', fr, node, 'directory', 'a rule is taken for a target in another directory', st)
            self.rep.check(n not in ('prepend', 'push_front', 'insert'), 'C32.match', fr, node, 'order', 'rules are not in the order of their definition', st)
            st.flags[('app',)] = 1

    def after(self, eng, st, fr, node, ci, res):
        v = st.flags.pop(('cut',), None)
        if v is not None:
            for k in [k for k in st.flags if k[0] == 'dirempty']:
                del st.flags[k]
            st.flags[('nosep', strip_old(eng.read(st, ci.alocs[0])))] = v

    def target(self, t):
        return any(x[0] == 'p' for x in subterms(t))

    def directory(self, st, t):
        t = strip_old(t)
        if t in (('s', '.'), ('c', 46)):
            return any(k[0] == 'dirempty' and v for k, v in st.flags.items())
        d = st.flags.get(('nosep', t))
        if d is None or st.flags.get(('dirempty', t)) is not False:
            return False
        if callname(d) == 'left' and d[3]:
            n = strip_old(d[3][0])
            return n[0] == 'op' and n[1] == '-' and n[2] == ('size', strip_old(d[2])) and n[3][0] == 'size' and \
                resname(n[3][1]) in ('fileName', 'fileNameFromFilePath') and strip_old(d[2])[0] == 'p'
        return False

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        if callname(x) == 'endsWith' and x[3]:
            a = strip_old(x[3][0])
            ok = strip_old(x[2])[0] == 'p' and len(x[3]) > 1 and x[3][1] == ('c', 0)
            if a[0] == 'key' or fieldname(a) == 'm_toExtension':
                self.rep.check(ok, 'C32.match', fr, node, 'comparison of extensions', 'extensions of targets and rules are not compared, or with regard to case', st)
                st.flags[('ext',) if a[0] == 'key' else ('rext',)] = v
                if a[0] == 'key':
                    f, lid = loopctx(fr, node)
                    if f is not None:
                        ok, why = loop_complete(f.fn.cfg.loops[lid])
                        self.rep.check(ok, 'C32.match', fr, node, 'all extensions', 'not all extensions are compared: %s' % why, st)
                        st.flags[('outer', f.id, lid)] = 1
        if x[0] == 'op' and x[1] == '<' and fieldname(x[2]) == 'm_priority' and x[3][0] == 'c':
            self.rep.check(x[3][1] == 0, 'C32.match', fr, node, 'bound of priorities', 'rules with priority 0 count as unknown, or unknown ones as known', st)
            st.flags[('prio',)] = v
        if x[0] == 'op' and x[1] == '<' and fieldname(x[3]) == 'm_priority' and x[2][0] == 'c':
            self.rep.check(x[2][1] == -1, 'C32.match', fr, node, 'bound of priorities', 'rules with priority 0 count as unknown, or unknown ones as known', st)
            st.flags[('prio',)] = not v
        if x[0] == 'op' and x[1] == '==' and len(x) == 4:
            for a, b in ((x[2], x[3]), (x[3], x[2])):
                if fieldname(a) == 'm_toSearchPath':
                    raw = t
                    self.rep.check(self.directory(st, b), 'C32.match', fr, node, 'comparison of directories',
                                   'what is compared with the path of a rule is not the directory of the target', st)
                    st.flags[('dir',)] = v
        if x[0] == 'size':
            st.flags[('dirempty', strip_old(x[1]))] = not v

    def each_done(self, eng, st, fr, node, elem):
        g = st.flags.get
        if ('app',) not in st.flags:
            ok = g(('ext',)) is False or g(('rext',)) is False or g(('prio',)) is True or g(('dir',)) is False
            self.rep.check(ok, 'C32.match', fr, node, 'left out', 'a rule that matches the target is left out', st)

    def loop(self, eng, st, fr, node, what, lid):
        EachRule.loop(self, eng, st, fr, node, what, lid)
        if what == 'back':
            for k in [k for k in st.flags if k[0] in ('prio', 'dir', 'app', 'rext')]:
                del st.flags[k]
            if st.flags.pop(('outer', fr.id, lid), None):
                st.flags.pop(('ext',), None)
            soft(st)

    def exit(self, eng, st, fr, node, kind, val):
        EachRule.exit(self, eng, st, fr, node, kind, val)
        if kind == 'ret':
            self.rep.check(not any(k[0] == 'outer' and k[1] == fr.id for k in st.flags), 'C32.match', fr, node, 'all extensions are compared',
                           'the search ends at the first extension of the target, rules with the extension in other case are left out', st)


class Preselect(EachRule):
    EACH = 'C32.select'

    def each_want(self, e):
        return is_field(strip_old(e[1]), DEPENDENTS)

    def call(self, eng, st, fr, node, ci):
        n = short(ci.short)
        if n == 'removeDoubleQuotes' and ci.alocs and ci.alocs[0] is not None:
            st.flags[('cut',)] = strip_old(ci.args[0])
        cur = self.each_current(st)
        if n in ('dependentTarget', 'target') and ci.args:
            st.flags[('look',)] = strip_old(ci.args[0])
        if n == 'findRulesByTargetName':
            a = strip_old(ci.args[0])
            q = st.flags.get(('plain', a))
            if named(a) is not None:
                st.flags[('ask',)] = ('own', a)
            elif q is not None:
                st.flags[('ask',)] = ('dep', a)
                self.rep.check(any(q == c for c in cur), 'C32.select', fr, node, 'name of the dependent', 'rules are looked for with another name than that of the dependent', st)
            else:
                self.rep.bad('C32.select', fr.fn.short, node.line, 'name', 'rules are looked for with a name that is not that of a target or of a dependent without quotes', st, file=fr.fn.file)
        if n == 'preselectInferenceRules':
            a = strip_old(ci.args[0])
            self.rep.check(st.flags.get(('dep',)) == a, 'C32.select', fr, node, 'recursion', 'rules are not looked for for the target a dependent is, but for another', st)
            st.flags[('done',)] = 1
        if n == 'createTarget':
            q = strip_old(ci.args[0])
            r = st.flags.get(('rules',))
            self.rep.check(('plain', q) in st.flags and r is not None and r[0] == 'dep' and st.flags.get(('some',)) is not False, 'C32.select', fr, node, 'new target',
                           'a target is created for another name than that of a dependent a rule was found for', st)

    def after(self, eng, st, fr, node, ci, res):
        n = short(ci.short)
        v = st.flags.pop(('cut',), None)
        if v is not None:
            st.flags[('plain', strip_old(eng.read(st, ci.alocs[0])))] = v
        l = st.flags.pop(('look',), None)
        if l is not None and n in ('dependentTarget', 'target'):
            st.flags[('lookup', strip_old(res))] = (l, n)
        a = st.flags.pop(('ask',), None)
        if a is not None:
            st.flags[('rules',)] = (a[0], strip_old(res))
            st.flags.pop(('some',), None)
        if n == 'createTarget':
            st.flags[('new',)] = strip_old(res)

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        if ('lookup', x) in st.flags:
            l, n = st.flags[('lookup', x)]
            self.rep.check(n == 'dependentTarget' and any(l == c for c in self.each_current(st)), 'C32.select', fr, node, 'lookup of dependents',
                           'a dependent is not looked up like in the graph (as such and in the directory of the makefile): its own rule is replaced', st)
            st.flags[('dep',) if v else ('nodep',)] = x
        if x[0] == 'size':
            r = st.flags.get(('rules',))
            if r is not None and strip_old(x[1]) == r[1]:
                st.flags[('some',)] = v
                if not v and r[0] == 'dep':
                    st.flags[('done',)] = 1
                if not v and r[0] == 'own':
                    st.flags[('own',)] = 1
            elif is_field(strip_old(x[1]), COMMANDS):
                st.flags[('cmds',)] = v
        if fieldname(x) == 'm_bInferenceRulesPreselected':
            st.flags[('seen',)] = v

    def write(self, eng, st, fr, node, loc, val, op):
        l = strip_old(loc)
        if is_field(l, RULES):
            r = st.flags.get(('rules',))
            v = strip_old(val) if val is not None else None
            self.rep.check(r is not None and v == r[1], 'C32.select', fr, node, 'rules of the target', 'the rules of a target are not those that were found for it', st)
            if r is None:
                return
            if r[0] == 'own':
                self.rep.check(l[1][0] == 'p' and st.flags.get(('cmds',)) is False, 'C32.select', fr, node, 'targets without commands',
                               'a target with commands of its own gets inference rules', st)
                st.flags[('own',)] = 1
            else:
                self.rep.check(l[1] == st.flags.get(('new',)), 'C32.select', fr, node, 'rules of the new target', 'the rules of a dependent go to another target', st)
                st.flags[('done',)] = 1
        if fieldname(l) == 'm_bInferenceRulesPreselected' and val == ('c', 1):
            st.flags[('mark',)] = 1

    def each_done(self, eng, st, fr, node, elem):
        self.rep.check(('done',) in st.flags and (('dep',) in st.flags or ('nodep',) in st.flags), 'C32.select', fr, node, 'each dependent', 'for a dependent no rules are looked for', st)

    def loop(self, eng, st, fr, node, what, lid):
        EachRule.loop(self, eng, st, fr, node, what, lid)
        if what == 'back':
            for k in [k for k in st.flags if k[0] in ('done', 'rules', 'plain', 'some', 'new', 'dep', 'nodep', 'lookup')]:
                del st.flags[k]
            soft(st)

    def exit(self, eng, st, fr, node, kind, val):
        EachRule.exit(self, eng, st, fr, node, kind, val)
        if fr.parent is None and kind == 'ret' and st.flags.get(('seen',)) is not True:
            self.rep.check(('mark',) in st.flags, 'C32.select', fr, node, 'marked', 'a target is not marked as done: its dependents are gone through again and again', st)
            if st.flags.get(('cmds',)) is not True:
                self.rep.check(('own',) in st.flags, 'C32.select', fr, node, 'own rules', 'for a target without commands no rules are looked for', st)


class Filter(Strings, EachRule):
    """filterRulesByDependent."""
    R = 'C32.filter'
    copies = False

    def name_ok(self, st, t):
        p = self.parts(st, t)
        if len(p) == 1 and resname(p[0]) == 'inferredDependent':
            return True
        ok, path = dependent_name(p, True)
        return ok and (path or ('here',) in st.flags)

    def call(self, eng, st, fr, node, ci):
        Strings.call(self, eng, st, fr, node, ci)
        n = short(ci.short)
        if n == 'exists' and ci.args:
            st.flags[('asked',)] = self.name_ok(st, ci.args[0])
            self.rep.check(st.flags[('asked',)], self.R, fr, node, 'name of the dependent',
                           'what is looked for is not the dependent the rule would use (path, file name of the target without its extension, extension)', st)
        if n in SHRINK and ci.recv is not None and ('QVector' in ci.name or 'QList' in ci.name):
            self.rep.check(st.flags.get(('ex',)) is False, self.R, fr, node, 'dropped', 'a rule is dropped although its dependent exists or may exist', st)
            st.flags[('dropped',)] = 1
        if self.copies and ci.recv is not None and n in GROW and ci.args and self.isrule(ci.args[-1]):
            st.flags[('kept',)] = 1

    def isrule(self, t):
        t = strip_old(t)
        return t[0] in ('d', 'elem')

    def after(self, eng, st, fr, node, ci, res):
        Strings.after(self, eng, st, fr, node, ci, res)
        a = st.flags.pop(('asked',), None)
        if a is not None and res is not None:
            st.flags[('exists', strip_old(res))] = a

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        if ('exists', x) in st.flags:
            st.flags[('ex',)] = v
            self.iteration(st, fr, node)
        if fieldname(x) == 'm_bFileExists':
            b = strip_old(x)[1]
            if callname(b) in ('value', 'target') and b[3] and self.name_ok(st, b[3][0]):
                if v:
                    st.flags[('ex',)] = True
                    self.iteration(st, fr, node)
        if x[0] == 'op' and x[1] == '==' and any(fieldname(a) == 'm_fromSearchPath' for a in x[2:]) and v:
            st.flags[('here',)] = 1

    def iteration(self, st, fr, node):
        f, lid = loopctx(fr, node)
        if f is not None:
            st.flags[('itf', f.id, lid)] = 1
            ok, why = loop_complete(f.fn.cfg.loops[lid])
            self.rep.check(ok, self.R, fr, node, 'all rules', 'not all rules are looked at: %s' % why, st)

    def loop(self, eng, st, fr, node, what, lid):
        if what != 'back':
            return
        st.flags.pop(('itf', fr.id, lid), None)
        g = st.flags.get
        dropped = ('dropped',) in st.flags or self.copies and ('kept',) not in st.flags
        if dropped:
            self.rep.check(g(('ex',)) is False, self.R, fr, node, 'left out', 'a rule is left out although its dependent exists', st)
        else:
            self.rep.check(g(('ex',)) is True, self.R, fr, node, 'kept', 'a rule is kept although its dependent is not known to exist', st)
        for k in [k for k in st.flags if k[0] in ('ex', 'dropped', 'kept', 'exists', 'str', 'here')]:
            del st.flags[k]
        soft(st)

    def exit(self, eng, st, fr, node, kind, val):
        if kind == 'ret':
            for k in [k for k in st.flags if k[0] == 'itf' and k[1] == fr.id]:
                self.rep.bad(self.R, fr.fn.short, fr.fn.line, 'left early', 'the rules behind the first one with a dependent are not looked at', st, file=fr.fn.file)
                del st.flags[k]

    elem = Rule.elem


def greater(prog, rep, key):
    """Is a comparison function 'has the greater priority'?"""
    f = prog.funcs.get(key)
    if f is None:
        return False
    out = []

    class Ret(Rule):
        def exit(self, eng, st, fr, node, kind, val):
            if fr.parent is None and kind == 'ret':
                out.append(strip_old(val))
    run_roots(prog, rep, Ret(prog, rep), [f])
    ids = [p['n'] for p in f.d['params']]
    ok = len(out) == 1 and out[0][0] == 'op' and out[0][1] == '<' and all(fieldname(x) == 'm_priority' for x in out[0][2:])
    if not ok:
        return False
    a, b = (strip_old(x)[1][2] for x in out[0][2:])
    return (a, b) == (ids[1], ids[0])


class Choose(Rule):
    """applyInferenceRules for one target."""
    R = 'C32.choose'

    def call(self, eng, st, fr, node, ci):
        n = short(ci.short)
        if n == 'filterRulesByDependent':
            l = ci.alocs[0] if ci.alocs else None
            own = is_field(strip_old(ci.args[0]), RULES)
            self.rep.check(own and named(ci.args[1]) is not None and l is not None and strip_old(l)[0] in ('loc', 'v'), self.R, fr, node, 'candidates',
                           'the candidates are not (a copy of) the rules of the target, or are judged by another name', st)
            st.flags[('filter',)] = l
        if n in ('stable_sort', 'sort', 'qSort', 'qStableSort'):
            c = ci.args[-1]
            ok = n in ('stable_sort', 'qStableSort') and ('filter',) in st.flags and any(x[0] == 'fn' and greater(self.p, self.rep, x[1]) for x in subterms(c))
            self.rep.check(ok, self.R, fr, node, 'order', 'the candidates are not put into an order by priority that keeps the order of definition', st)
            st.flags[('sorted',)] = 1
        if n == 'applyInferenceRule':
            r = strip_old(ci.args[1])
            ok = r[0] == 'elem' and r[2] == ('s', 'last') and ('sorted',) in st.flags and strip_old(ci.args[0])[0] == 'p'
            self.rep.check(ok, self.R, fr, node, 'choice', 'the rule that is applied is not the last one defined among those whose suffix comes first', st)
            self.rep.check(st.flags.get(('some',)) is True, self.R, fr, node, 'none', 'a rule is applied although there may be none', st)
            self.rep.check(('applied',) not in st.flags, self.R, fr, node, 'one rule', 'more than one rule is applied to a target', st)
            st.flags[('applied',)] = 1
            st.flags.pop(('cleared',), None)
        if n == 'clear' and is_field(strip_old(rloc(ci)), RULES):
            st.flags[('cleared',)] = 1
            self.rep.check(('applied',) in st.flags or st.flags.get(('has',)) is False, self.R, fr, node, 'rules are kept', 'the rules of a target are dropped without one being applied: '
                           'a dependent that is made later is not noticed', st)

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        if x[0] == 'size':
            if is_field(strip_old(x[1]), RULES) and ('filter',) not in st.flags:
                st.flags[('has',)] = v
            elif ('filter',) in st.flags:
                st.flags[('some',)] = v

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            g = st.flags.get
            if ('applied',) in st.flags:
                self.rep.check(('cleared',) in st.flags, self.R, fr, node, 'once', 'a target keeps its rules after one was applied: it is applied again', st)
            else:
                self.rep.check(g(('has',)) is False or g(('some',)) is False, self.R, fr, node, 'applied', 'a rule that matches is not applied', st)


class Inferred(Strings):
    """inferredDependent."""

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        if x[0] == 'op' and x[1] == '==' and any(fieldname(a) == 'm_fromSearchPath' for a in x[2:]) and any(a in (('s', '.'), ('c', 46)) for a in x[2:]):
            st.flags[('here',)] = v

    def ret(self, eng, st, fr, node, val):
        if fr.parent is not None or val is None:
            return
        ok, path = dependent_name(self.parts(st, val), True)
        self.rep.check(ok and (path or st.flags.get(('here',)) is True), 'C32.name', fr, node, 'name of the dependent',
                       'the name of the dependent is not path, file name of the target without the extension of the rule and the extension of dependents', st)


class Apply(EachRule):
    """applyInferenceRule, for one target and for a batch."""
    EACH = 'C32.apply'
    batch = False

    def each_want(self, e):
        return self.batch and strip_old(e[1])[0] == 'p' and e[2] != ('s', 'first')

    def each_start(self, eng, st, fr, node, elem):
        for k in ('cleared', 'dep'):
            st.flags.pop((k,), None)

    def owner(self, st, t):
        """The target that gets commands and dependents."""
        t = strip_old(t)
        if not self.batch:
            return t[0] == 'p'
        return t[0] == 'elem' and t[2] in (('s', 'first'), ('c', 0))

    def call(self, eng, st, fr, node, ci):
        n = short(ci.short)
        l = strip_old(rloc(ci)) if ci.recv is not None else ()
        if ci.recv is not None and n in GROW and is_field(l, BMR):
            st.flags[('bmr',)] = strip_old(ci.args[-1])
        if ci.recv is not None and n in GROW and is_field(l, BMT):
            st.flags[('bmt',)] = tuple(strip_old(a) for a in ci.args)
        if ci.recv is not None and n == 'clear' and is_field(l, RULES):
            st.flags[('cleared',)] = 1
        if n == 'inferredDependent':
            st.flags[('ask',)] = 1
            a = ci.args[0]
            who = named(a)
            ok = who is not None and (who[0] == 'p' if not self.batch else any(who == c for c in self.each_current(st)))
            self.rep.check(ok, 'C32.apply', fr, node, 'dependent of the target', 'the inferred dependent is not that of the target', st)
        if ci.recv is not None and n in GROW and is_field(l, DEPENDENTS):
            ok = resname(strip_old(ci.args[-1])) == 'inferredDependent' and self.owner(st, l[1])
            self.rep.check(ok, 'C32.apply', fr, node, 'added dependent', 'what is added to the dependents is not the inferred one, or it is added to another target', st)
            if st.flags.get(('has',)) is not False and n != 'removeDuplicates':
                self.rep.bad('C32.apply', fr.fn.short, node.line, 'added twice', 'the inferred dependent is added although it may be there', st, file=fr.fn.file)
            st.flags[('dep',)] = 1

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        if callname(x) == 'contains' and is_field(strip_old(x[2]), DEPENDENTS):
            if resname(strip_old(x[3][0])) == 'inferredDependent' and self.owner(st, strip_old(x[2])[1]):
                st.flags[('has',)] = v
                if v:
                    st.flags[('dep',)] = 1
        for name in ('batchModeEnabled', 'm_batchMode'):
            if fieldname(x) == name:
                st.flags[(name,)] = v
        if x[0] == 'p' and x[2] == 'applyingBatchMode':
            st.flags[('apply',)] = v

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(strip_old(loc), COMMANDS):
            ok = val is not None and is_field(strip_old(val), COMMANDS) and strip_old(val)[1][0] == 'p' and self.owner(st, strip_old(loc)[1])
            self.rep.check(ok, 'C32.apply', fr, node, 'commands', 'the commands of the target are not those of the rule', st)
            st.flags[('cmds',)] = 1

    def each_done(self, eng, st, fr, node, elem):
        self.rep.check(('cleared',) in st.flags, 'C32.apply', fr, node, 'rules of each target', 'a target of a batch keeps its rules, it is made again', st)
        self.rep.check(('dep',) in st.flags, 'C32.apply', fr, node, 'dependent of each target', 'the dependent of a target of a batch is not among those of the batch', st)
        st.flags.pop(('has',), None)

    def loop(self, eng, st, fr, node, what, lid):
        EachRule.loop(self, eng, st, fr, node, what, lid)

    def exit(self, eng, st, fr, node, kind, val):
        EachRule.exit(self, eng, st, fr, node, kind, val)
        if fr.parent is not None or kind != 'ret':
            return
        g = st.flags.get
        if self.batch:
            self.rep.check(('cmds',) in st.flags, 'C32.apply', fr, node, 'commands of the batch', 'a batch gets no commands', st)
            return
        if ('bmr',) in st.flags or ('bmt',) in st.flags:
            a, b = g(('bmr',)), g(('bmt',))
            self.rep.check(a is not None and b is not None and len(b) == 2 and b[0] == a and b[1] != a, 'C32.apply', fr, node, 'put into a batch',
                           'a target that waits for its batch is not listed under its rule', st)
            self.rep.check(g(('batchModeEnabled',)) is True and g(('m_batchMode',)) is True and g(('apply',)) is not True and ('cmds',) not in st.flags,
                           'C32.apply', fr, node, 'only batch rules', 'a target is put into a batch although its rule is none of batch mode, or batch mode is disabled', st)
            return
        self.rep.check(('cmds',) in st.flags and ('dep',) in st.flags and ('cleared',) in st.flags, 'C32.apply', fr, node, 'applied',
                       'the commands, the dependent or the removed rules of an applied rule are missing', st)
        ok = g(('batchModeEnabled',)) is False or g(('m_batchMode',)) is False or g(('apply',)) is True
        self.rep.check(ok, 'C32.apply', fr, node, 'batch rules', 'a rule of batch mode is applied to a single target', st)


class Batches(EachRule):
    """applyInferenceRules for all targets."""
    EACH = 'C32.batch'

    def each_want(self, e):
        return strip_old(e[1])[0] == 'p' or is_field(strip_old(e[1]), BMR)

    def call(self, eng, st, fr, node, ci):
        n = short(ci.short)
        l = strip_old(rloc(ci)) if ci.recv is not None else ()
        cur = self.each_current(st)
        if n == 'applyInferenceRules' and ci.args:
            self.rep.check(any(strip_old(ci.args[0]) == c for c in cur), 'C32.batch', fr, node, 'single', 'rules are applied to something else than the target', st)
            st.flags[('one',)] = 1
        if n == 'clear' and (is_field(l, BMR) or is_field(l, BMT)):
            st.flags[('gone', fieldname(l))] = 1
        if n.startswith('take') and ci.recv is not None and not is_field(l, BMT):
            st.flags[('took',)] = node.line
            st.flags[('taken',)] = 1
        elif ci.recv is not None and n in GROW and ('took',) in st.flags and strip_old(ci.args[-1])[0] in ('elem', 'r', 'j'):
            st.flags.pop(('took',))
            st.flags[('in',)] = 1
        if n == 'applyInferenceRule' and len(ci.args) >= 2:
            self.rep.check(any(strip_old(ci.args[1]) == c for c in cur), 'C32.batch', fr, node, 'rule of the batch', 'another rule is applied to a batch', st)
            st.flags.pop(('in',), None)
            st.flags[('lists',)] = 1

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        if x[0] == 'size':
            if is_field(strip_old(x[1]), BMT):
                st.flags[('any',)] = v
            elif any(is_field(y, BMT) for y in subterms(x[1])) or strip_old(x[1])[0] in ('r', 'j'):
                st.flags[('rest',)] = v
        if x[0] == 'op' and x[1] == '<' and v is not None and any(callname(y) in ('qMax', 'max') for y in x[2:]):
            b = [y for y in x[2:] if callname(y) in ('qMax', 'max')][0]
            self.rep.check(any(y[0] == 'c' and y[1] >= 1 for y in b[3]), 'C32.batch', fr, node, 'size of batches', 'a batch may be empty: batches are made without end', st)
            st.flags[('bound',)] = 1

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'back':
            self.rep.check(('took',) not in st.flags, 'C32.batch', fr, node, 'taken targets', 'a target is taken from the list and not put into a batch', st)
            st.flags.pop(('took',), None)
        EachRule.loop(self, eng, st, fr, node, what, lid)

    def each_done(self, eng, st, fr, node, elem):
        e = strip_old(elem)
        if is_field(strip_old(e[1]), BMR):
            self.rep.check(st.flags.get(('rest',)) is False and ('in',) not in st.flags and (('lists',) in st.flags or ('taken',) not in st.flags), 'C32.batch', fr, node, 'all targets of a rule',
                           'targets of a batch rule are left without commands', st)
        else:
            self.rep.check(('one',) in st.flags, 'C32.batch', fr, node, 'each target', 'no rule is applied to a target', st)
        for k in ('one', 'rest', 'in', 'lists', 'bound', 'taken'):
            st.flags.pop((k,), None)
        soft(st)

    def exit(self, eng, st, fr, node, kind, val):
        EachRule.exit(self, eng, st, fr, node, kind, val)
        if fr.parent is None and kind == 'ret' and st.flags.get(('any',)) is not False:
            self.rep.check(('gone', 'm_batchModeRules') in st.flags and ('gone', 'm_batchModeTargets') in st.flags, 'C32.batch', fr, node, 'batches are done',
                           'targets of batches are remembered, they are made again', st)


class Suffixes(Rule):
    """parseDotDirective: .SUFFIXES."""
    R = 'C32.suffixes'

    def call(self, eng, st, fr, node, ci):
        n = short(ci.short)
        l = strip_old(rloc(ci)) if ci.recv is not None else ()
        if ci.recv is None or not is_field(l, SUFFIXES) or ci.e.get('const') and n not in GROW:
            return
        self.rep.check(st.flags.get(('sfx',)) is True, self.R, fr, node, 'only .SUFFIXES', 'another directive changes the list of suffixes', st)
        if n == 'clear':
            self.rep.check(st.flags.get(('some',)) is False, self.R, fr, node, 'cleared', 'the list of suffixes is cleared although suffixes are given', st)
        elif n in ('append', 'operator+=', 'operator<<'):
            ok = self.split(ci.args[-1]) or any(strip_old(ci.args[-1]) == e for e in [strip_old(v) for k, v in st.flags.items() if k[0] == 'e'])
            self.rep.check(st.flags.get(('some',)) is True and ok, self.R, fr, node, 'added',
                           'what is added to the suffixes is not the given list', st)
        else:
            self.rep.bad(self.R, fr.fn.short, node.line, n, 'the list of suffixes is changed otherwise', st, file=fr.fn.file)
        st.flags[('done',)] = 1

    def split(self, t):
        t = strip_old(t)
        if t[0] == 'elem':
            t = strip_old(t[1])
        return resname(t) == 'split'

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        if x[0] == 'op' and x[1] == '==' and any(a == ('s', 'SUFFIXES') for a in x[2:]):
            st.flags[('sfx',)] = v
        if x[0] == 'size' and self.split(x[1]):
            st.flags[('some',)] = v

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret' and st.flags.get(('sfx',)) is not False:
            self.rep.check(('done',) in st.flags, self.R, fr, node, 'used', '.SUFFIXES has no effect', st)


class Defaults(Rule):
    """apply: the predefined suffixes."""

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.got = []
        self.node = None

    def call(self, eng, st, fr, node, ci):
        l = strip_old(rloc(ci)) if ci.recv is not None else ()
        n = short(ci.short)
        if ci.recv is None or not (is_field(l, SUFFIXES)):
            return
        if n == 'clear' and not self.got:
            self.node = (fr, node)
        elif n in ('append', 'operator+=', 'operator<<', 'push_back'):
            s = [x for x in subterms(ci.args[-1]) if x[0] == 's']
            if s and (fr.fn.short, node.line, s[0][1]) not in self.got:
                self.got.append((fr.fn.short, node.line, s[0][1]))

    def loop(self, eng, st, fr, node, what, lid):
        return False    # only what is before the first line


class Probe(Rule):
    """isTargetUpToDate: what is tried out with the possible dependents is undone."""
    R = 'C32.probe'
    WHAT = {RULES: 'the rules', DEPENDENTS: 'the dependents'}

    def which(self, l):
        for f in self.WHAT:
            if is_field(l, f):
                return f
        return None

    def call(self, eng, st, fr, node, ci):
        if ci.recv is not None and not ci.e.get('const'):
            f = self.which(strip_old(rloc(ci)))
            if f is not None and (short(ci.short) in SHRINK or short(ci.short) in GROW):
                st.flags[('dirty', f)] = 1
                if f == DEPENDENTS and short(ci.short) in GROW:
                    self.rep.check(resname(strip_old(ci.args[-1])) == 'inferredDependent', self.R, fr, node, 'possible dependents', 'something else than a possible dependent is added', st)
        if short(ci.short) == 'isTargetUpToDate':
            self.rep.check(('dirty', RULES) in st.flags and ('dirty', DEPENDENTS) in st.flags, self.R, fr, node, 'recursion', 'a target is asked again with the same rules or dependents: without end', st)

    def write(self, eng, st, fr, node, loc, val, op):
        l = strip_old(loc)
        f = self.which(l)
        if f is not None and val is not None:
            if strip_old(val) == ('f', l[1], NS + f):
                st.flags.pop(('dirty', f), None)
            else:
                self.rep.bad(self.R, fr.fn.short, node.line, f, '%s of a target are replaced' % self.WHAT[f], st, file=fr.fn.file)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            for f in self.WHAT:
                self.rep.check(('dirty', f) not in st.flags, self.R, fr, node, f, '%s of a target that were changed to find out whether it is up to date stay so' % self.WHAT[f], st)


@check('C32')
def c32(prog, rep):
    rep.rule('C32.pattern', 'The pattern of inference rules accepts {path}.ext{path}.ext: with optional paths and : or ::, then only blanks, and yields the parts.')
    rep.rule('C32.line', 'The text compared with the pattern of inference rules and dot directives is expanded and has no comment.')
    rep.rule('C32.fields', 'Each rule is added once, with the extensions, paths (without braces and last separator, "." if empty) and mode of its line and its commands.')
    rep.rule('C32.suffixes', 'Only .SUFFIXES changes the list of suffixes: without value it is cleared, otherwise extended; it starts with the predefined ones.')
    rep.rule('C32.prio', 'The priority of a rule is the index of the first suffix equal to the extension of its dependents, whatever the case; without one it stays below 0.')
    rep.rule('C32.order', 'Rules are indexed by extension, each once, in the order of their definition; priorities are calculated and the index is complete before rules are looked for.')
    rep.rule('C32.match', 'The rules for a name are exactly those with its extension, its directory and a known suffix, in the order of their definition.')
    rep.rule('C32.select', 'Each target without commands gets the rules for its name, each dependent that is no target becomes one if rules are found; all targets are reached.')
    rep.rule('C32.filter', 'Exactly the rules whose dependent does not exist are dropped.')
    rep.rule('C32.choose', 'The one rule with the first suffix, the last one defined among equals, is applied to the target, once; while there is none the candidates are kept.')
    rep.rule('C32.name', 'The dependent is path, name of the target without extension and extension of the dependents.')
    rep.rule('C32.apply', 'Applying a rule gives its commands and its dependent to the target (the first one of a batch); rules of batch mode are collected if it is enabled.')
    rep.rule('C32.batch', 'Each collected target gets into a batch of its rule, each batch is made, none is empty; then all are forgotten.')
    rep.rule('C32.probe', 'Whether a target is up to date is found out without changing its dependents and rules.')
    one = lambda n: [f for f in prog.fns(n)]
    known = {NS + 'Parser::' + n for n in BASE}
    rest = lambda *but: [f.name for f in prog.methods('Parser') if f.name in known and f.name.split('::')[-1] not in but]
    pt = Pattern(prog, rep)
    run_roots(prog, rep, pt, ['Parser::Parser'])
    ln = Line(prog, rep)
    ln.want = {'m_rexInferenceRule': 'inference rules', 'm_rexDotDirective': 'directives'}
    ln.mode = {}
    run_roots(prog, rep, ln, ['Parser::apply'], inline=('Parser::isInferenceRule', 'Parser::isDotDirective'), noinline=rest('isInferenceRule', 'isDotDirective'), small=0, limit=8, heapkeep=())
    for f in ('m_rexInferenceRule',):
        if f not in pt.pats or f not in ln.mode:
            rep.bad('C32.pattern', 'Parser::Parser', 0, f, 'the pattern of inference rules is not found', None, file='jomlib/parser.cpp')
            continue
        pat, fr, node = pt.pats[f]
        rex = re.compile(pat)
        for line, want in sorted(LINES.items()):
            m = rex.fullmatch(line) if ln.mode[f] == 'exactMatch' else rex.match(line)
            got = None
            if m:
                try:
                    got = tuple(m.group(i) or '' for i in range(1, 6))
                except IndexError:
                    got = ()
            rep.check(got == want, 'C32.pattern', fr, node, repr(line), 'the pattern of inference rules does not treat "%s" as it should' % line, None)
    run_roots(prog, rep, Fields(prog, rep), ['Parser::parseInferenceRule'], limit=300, inline=('Makefile::addInferenceRule',),
              noinline=('removeDirSeparatorAtEnd', 'Parser::parseCommand', 'Parser::readLine'))
    run_roots(prog, rep, Suffixes(prog, rep), ['Parser::parseDotDirective'])
    df = Defaults(prog, rep)
    run_roots(prog, rep, df, ['Parser::apply'], noinline=rest(), small=0, limit=8, heapkeep=())
    rep.check([x[2] for x in df.got] == DEFAULT and df.node is not None, 'C32.suffixes', df.node[0] if df.node else one('Parser::apply') and Site(one('Parser::apply')[0]),
              df.node[1] if df.node else None, 'predefined suffixes', 'the predefined suffixes are not %s in this order, or the list is not emptied before' % ' '.join(DEFAULT), None)
    run_roots(prog, rep, Priority(prog, rep), ['Makefile::calculateInferenceRulePriorities'])
    ca = Cache(prog, rep)
    run_roots(prog, rep, ca, ['Parser::apply'], noinline=rest(), small=0, limit=8, heapkeep=())
    for f in one('Parser::apply'):
        rep.check(bool(ca.hits) and not ca.hits & ca.miss, 'C32.order', Site(f), None, 'active targets', 'the rules for an active target are not looked for', None)
    run_roots(prog, rep, Match(prog, rep), ['Parser::findRulesByTargetName'], noinline=('fileNameFromFilePath', 'removeDirSeparatorAtEnd'))
    run_roots(prog, rep, Preselect(prog, rep), ['Parser::preselectInferenceRules'], noinline=('dependentTarget', 'findRulesByTargetName', 'createTarget', 'removeDoubleQuotes'))
    fl = Filter(prog, rep)
    for f in one('Makefile::filterRulesByDependent'):
        fl.copies = not any(n.op == 'call' and isinstance(n.b, dict) and str(n.b.get('f', '')).split('::')[-1] in ('erase', 'remove', 'removeAt', 'removeOne') for n in f.cfg.nodes)
        run_roots(prog, rep, fl, [f], noinline=('inferredDependent',))
    for f in one('Makefile::applyInferenceRules'):
        single = '*' in f.d['params'][0].get('ty', '') and 'QList' not in f.d['params'][0].get('ty', '')
        run_roots(prog, rep, Choose(prog, rep) if single else Batches(prog, rep), [f], noinline=('filterRulesByDependent', 'applyInferenceRule', 'applyInferenceRules'))
    run_roots(prog, rep, Inferred(prog, rep), ['InferenceRule::inferredDependent'])
    for f in one('Makefile::applyInferenceRule'):
        mon = Apply(prog, rep)
        mon.batch = 'QList' in f.d['params'][0].get('ty', '')
        run_roots(prog, rep, mon, [f], noinline=('inferredDependent', 'expandMacros', 'evaluateModifiers'))
    run_roots(prog, rep, Probe(prog, rep), ['DependencyGraph::isTargetUpToDate'])


class Site(object):
    def __init__(self, fn):
        self.fn = fn
