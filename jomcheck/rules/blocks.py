"""C33: what a description block of the makefile says about its targets."""
from .common import *
from .registry import check
from .infer import Rule, EachRule, short, rloc, fieldname, soft
from .graph import enum_value

MLINE = 'Parser::m_line'
CAN = 'DescriptionBlock::m_canAddCommands'
DEPS = 'DescriptionBlock::m_dependents'
CMDS = 'CommandContainer::m_commands'


class Labels(Rule):
    """Which parts of the line a value is made of: flags ('lab', value) -> labels."""

    def labels(self, st, t, depth=0):
        if not isinstance(t, tuple) or not t or depth > 10:
            return frozenset()
        v = st.flags.get(('lab', t))
        if v is None:
            v = st.flags.get(('lab', strip_old(t)))
        if v is not None:
            return v
        t = strip_old(t)
        if is_field(t, MLINE):
            return frozenset('L')
        if t[0] in ('m', 'obj'):
            xs = [t[2]] + list(t[3]) if t[0] == 'm' else list(t[2:])
        elif t[0] in ('elem', 'size'):
            xs = [t[1]]
        else:
            return frozenset()
        s = set()
        for x in xs:
            if isinstance(x, tuple):
                s |= self.labels(st, x, depth + 1)
        return frozenset(s)

    def mark(self, st, t, s):
        if isinstance(t, tuple) and t and t[0] not in ('c', 's', 'dflt'):
            st.flags[('lab', t)] = s
            st.flags[('lab', strip_old(t))] = s

    def sum(self, t):
        """Names of parameters and the constant a position is the sum of."""
        t = strip_old(t)
        if t[0] == 'c':
            return (), t[1]
        if t[0] == 'p':
            return (t[2],), 0
        if t[0] == 'op' and t[1] in ('+', '-') and len(t) == 4:
            a, b = self.sum(t[2]), self.sum(t[3])
            if a is None or b is None:
                return None
            if t[1] == '-':
                return tuple(sorted(a[0] + tuple('-' + x for x in b[0]))), a[1] - b[1]
            return tuple(sorted(a[0] + b[0])), a[1] + b[1]
        return None

    def part(self, st, ci):
        """Labels of what a function of the string yields (or leaves), or None."""
        n = short(ci.short)
        if ci.recv is None or not ci.args:
            return None
        s = self.labels(st, ci.recv)
        if not s:
            return None
        pos, ln, cmd = self.par
        a = [self.sum(x) for x in ci.args]
        if n in ('left', 'truncate') or n == 'mid' and len(a) > 1 and a[0] == ((), 0) and ci.args[1] != ('c', -1):
            k = a[-1]
            if k == ((pos,), 0) and s == {'L'}:
                return frozenset('T')
            if k == ((cmd,), 0):
                return frozenset(s | {'cut'}) if s == {'L'} else frozenset({'wrong'})
            if k == (tuple(sorted((cmd, '-' + pos, '-' + ln))), 0) and s == {'D'}:
                return frozenset({'D', 'cut'})
            return frozenset({'wrong'})
        if n in ('remove', 'mid', 'right'):
            k = a[1] if n == 'remove' and len(a) > 1 and a[0] == ((), 0) else a[0] if n == 'mid' else None
            if k is None or not s <= {'L', 'cut'}:
                return frozenset({'wrong'})
            r = None
            if k == (tuple(sorted((pos, ln))), 0):
                r = {'D'} | (s & {'cut'})
            if k == ((cmd,), 1):
                r = {'C'} if 'cut' not in s else {'wrong'}
            if r is None:
                return frozenset({'wrong'})
            if n == 'mid' and len(a) > 1 and ci.args[1] != ('c', -1):
                if a[1] == (tuple(sorted((cmd, '-' + pos, '-' + ln))), 0):
                    r = r | {'cut'}
                else:
                    return frozenset({'wrong'})
            return frozenset(r)
        return None

    def call(self, eng, st, fr, node, ci):
        st.flags.pop(('chg',), None)
        s = self.part(st, ci)
        if s is None:
            s = frozenset().union(*[self.labels(st, x) for x in [ci.recv] + list(ci.args) if isinstance(x, tuple)] or [frozenset()])
        else:
            st.flags[('chg',)] = 1
        if ci.recv is not None and not ci.e.get('const'):
            st.flags[('chg',)] = 1
        st.flags[('now',)] = s

    def after(self, eng, st, fr, node, ci, res):
        s = st.flags.pop(('now',), None)
        chg = st.flags.pop(('chg',), None)
        if not s:
            return
        const = bool(ci.e.get('const'))
        if isinstance(res, tuple) and res and (res[0] == 'r' or const and chg):
            self.mark(st, res, s)
        if chg and not const and ci.rloc is not None:
            t = eng.read(st, ci.rloc)
            if t is not None:
                self.mark(st, t, s)


class Block(Labels):
    """parseDescriptionBlock: parts of the line, and what each target gets."""
    R = 'C33.block'
    PART = 'C33.parts'
    tloop = None

    def ck(self, st, fr, node, c, key, msg, rule=None):
        self.rep.check(c, rule or self.R, fr, node, key, msg, st)

    def isp(self, t, i):
        t = strip_old(t)
        return t[0] == 'p' and t[2] == self.par[i]

    def is_target(self, st, t):
        t = strip_old(t)
        return t[0] == 'elem' and not (isinstance(t[2], tuple) and t[2] and t[2][0] == 's') and self.labels(st, t) == {'T'} and st.flags.get(('cur',), t) == t

    def owner(self, st, t):
        """Does the term denote the block of the target of this iteration?"""
        t = strip_old(t)
        if callname(t) == 'target' and t[3] and self.is_target(st, t[3][0]):
            return True
        return resname(t) in ('createTarget', 'target')

    def call(self, eng, st, fr, node, ci):
        Labels.call(self, eng, st, fr, node, ci)
        n = short(ci.short)
        g = st.flags.get
        l = rloc(ci)
        ck = lambda c, k, m, r=None: self.ck(st, fr, node, c, k, m, r)
        if n == 'parseCommandLine':
            ck(g(('sep',)) is True and 'C' in self.labels(st, ci.args[0]) and self.labels(st, ci.args[0]) <= {'C'}, 'the command behind a semicolon', 'what stands behind the semicolon is not taken for the command, or something else is', self.PART)
            ck(('more',) not in st.flags, 'the command of the line is the first', 'the command behind the semicolon comes after those of the lines that follow', self.PART)
            st.flags[('inplace',)] = 1
        if n == 'parseCommand':
            ck((g(('sep',)) is not True) or ('inplace',) in st.flags, 'the command of the line is read', 'the command behind the semicolon is lost, or comes after the others', self.PART)
            ck(g(('blank',)) is not True, 'commands follow at once', 'lines behind a blank line are taken for commands of the block', self.PART)
            ck(g(('fresh',)) == 1, 'each command line is read once', 'a line is taken for a command twice', self.PART)
            st.flags.pop(('fresh',), None)
            st.flags[('more',)] = 1
        if n == 'readLine':
            ck(('fresh',) not in st.flags or g(('blank',)) is True, 'no line is skipped', 'a line behind a description block is skipped', self.PART)
            st.flags[('fresh',)] = 1
        if n == 'splitTargetNames':
            s = self.labels(st, ci.args[0])
            ck(s == {'T'} or s == {'D', 'cut'} or s == {'D'} and g(('sep',)) is False, 'the parts of the line', 'what is split is neither what stands before the separator, nor what stands between the separator and the command', self.PART)
        if n == 'setParallelExecutionDisabled':
            ck(g(('np',)) is True and ci.args[0] == ('c', 1), '.NOTPARALLEL', 'parallel execution is disabled for another target, or not disabled by .NOTPARALLEL')
            st.flags[('npdone',)] = 1
        if n == 'target' and ci.args:
            ck(self.is_target(st, ci.args[0]), 'the target is looked up', 'another name than that of the target is looked up')
        if n == 'createTarget':
            ck(g(('exists',)) is False and self.is_target(st, ci.args[0]), 'a target is created once', 'a target is created although it exists: what was said about it before is lost')
            st.flags[('created',)] = 1
        if n == 'error':
            ck(g(('exists',)) is True and g(('same',)) is False and g(('unk',)) is False, 'no mixture of : and ::', 'a description block is refused although it has the same separator as those before, or none came before')
            return []       # it throws
        if ci.recv is not None and n in GROW and is_field(strip_old(l), DEPS):
            s = self.labels(st, ci.args[-1])
            ck(self.owner(st, strip_old(l)[1]) and (s == {'D', 'cut'} or s == {'D'} and g(('sep',)) is False), 'the dependents', 'other names than those behind the separator are added to the dependents, or to another target')
            ck(('depdone',) not in st.flags, 'dependents once', 'the dependents are added twice')
            st.flags[('depdone',)] = 1
        if n == 'expandFileNameMacrosForDependents' or n == 'extractSyncPoints':
            ck(('depdone',) in st.flags, n + ' after the dependents are added', 'file name macros or .SYNC in the dependents are not looked at, the dependents are added later')
            st.flags[(n,)] = 1
        if ci.recv is not None and n in GROW and is_field(strip_old(l), CMDS):
            ok = self.owner(st, strip_old(l)[1])
            new = ('created',) in st.flags or g(('exists',)) is False
            ck(ok and (new or g(('dbl',)) is True or g(('has',)) is False), 'commands are added', 'commands are added to a target that has commands, although its separator is a single colon')
            ck(('cmddone',) not in st.flags, 'commands once', 'the commands are added twice')
            st.flags[('cmddone',)] = 1

    def after(self, eng, st, fr, node, ci, res):
        Labels.after(self, eng, st, fr, node, ci, res)

    def branch(self, eng, st, fr, node, t, truth):
        x, v = strip_old(t), truth
        while x[0] == 'op' and x[1] == '!' and len(x) == 3:
            x, v = strip_old(x[2]), not v
        if not (x[0] == 'op' and x[1] == '==' and len(x) == 4 and (is_field(strip_old(x[2]), CAN) or is_field(strip_old(x[3]), CAN) or self.isp(x[2], 1) or self.isp(x[3], 1))):
            x, v = truths(t, truth)
        pos, ln, cmd = self.par
        if x[0] == 'op' and len(x) == 4 and x[1] in ('<', '=='):
            a, b = strip_old(x[2]), strip_old(x[3])
            if self.isp(a, 2) and b == ('c', 0) and x[1] == '<' or self.isp(a, 2) and b == ('c', -1) and x[1] == '==' or self.isp(b, 2) and a == ('c', -1) and x[1] == '==':
                st.flags[('sep',)] = not v
            elif self.isp(b, 2) and a == ('c', -1) and x[1] == '<':
                st.flags[('sep',)] = v
            if self.isp(b, 1) and a == ('c', 1) and x[1] == '<' or x[1] == '==' and ('c', 2) in (a, b) and (self.isp(a, 1) or self.isp(b, 1)):
                st.flags[('dbl',)] = v
            if self.isp(a, 1) and b == ('c', 2) and x[1] == '<' or x[1] == '==' and ('c', 1) in (a, b) and (self.isp(a, 1) or self.isp(b, 1)):
                st.flags[('dbl',)] = not v
            if x[1] == '==':
                for y, z in ((a, b), (b, a)):
                    if is_field(y, CAN) and z[0] == 'c':
                        if z[1] == self.unknown:
                            st.flags[('unk',)] = v
                        elif z[1] == (self.enabled if st.flags.get(('dbl',)) else self.disabled):
                            st.flags[('same',)] = v
                        elif v is False and st.flags.get(('unk',)) is False:
                            st.flags[('same',)] = True
                    if self.is_target(st, y) and not is_field(z, CAN):
                        st.flags[('np',)] = v
                        st.flags[('cur',)] = y
        elif is_field(x, CAN):
            st.flags[('unk',)] = not v      # compared with 0
        elif callname(x) == 'target' or resname(x) == 'target':
            st.flags[('exists',)] = v
        elif resname(x) == 'parseCommand':
            st.flags[('cmd',)] = v
        elif x[0] == 'size':
            c = strip_old(x[1])
            if is_field(c, CMDS):
                st.flags[('has',)] = v
            elif callname(c) in ('trimmed', 'simplified') or resname(c) == 'trimmed':
                st.flags[('blank',)] = not v
            else:
                st.flags[('any',)] = v
        elif callname(x) == 'isEmptyLine' or resname(x) == 'isEmptyLine':
            st.flags[('blank',)] = v

    def write(self, eng, st, fr, node, loc, val, op):
        l = strip_old(loc)
        if l[0] == 'f' and is_field(l, CAN) and val is not None:
            d = st.flags.get(('dbl',))
            ok = self.owner(st, l[1]) and d is not None and strip_old(val) == ('c', self.enabled if d else self.disabled)
            self.ck(st, fr, node, ok, 'the separator is remembered', 'a target does not remember whether its separator was : or ::')
            st.flags[('can',)] = 1

    def loop(self, eng, st, fr, node, what, lid):
        lp = fr.fn.cfg.loops[lid]
        if what == 'iter':
            st.flags[('lin', fr.id, lid)] = 1
            return
        st.flags.pop(('lin', fr.id, lid), None)
        g = st.flags.get
        if ('cmd',) in st.flags and ('np',) not in st.flags and ('exists',) not in st.flags:
            # loop over the command lines
            soft(st)
            return
        if ('np',) not in st.flags and ('exists',) not in st.flags:
            return
        self.tloop = (fr.fn.key, lid)
        ck = lambda c, k, m: self.ck(st, fr, node, c, k, m)
        ok, why = loop_complete(lp)
        ck(ok, 'every target of the block', 'a target of a description block is left out: ' + why)
        if g(('np',)) is True:
            ck(('npdone',) in st.flags, '.NOTPARALLEL is obeyed', '.NOTPARALLEL does not disable parallel execution')
            ck(('depdone',) not in st.flags, '.NOTPARALLEL is no target', '.NOTPARALLEL is taken for a target')
        else:
            ck(g(('exists',)) is not True or g(('same',)) is True or g(('unk',)) is True, 'a mixture of : and :: is an error', 'description blocks with : and :: for the same target are accepted')
            ck(g(('exists',)) is not False or ('created',) in st.flags, 'new targets are created', 'a new target is not created')
            ck(('can',) in st.flags, 'the separator is remembered always', 'a target does not remember whether its separator was : or ::')
            ck(('depdone',) in st.flags, 'the dependents are added', 'the dependents of a description block are not added to a target')
            ck(('expandFileNameMacrosForDependents',) in st.flags and ('extractSyncPoints',) in st.flags, 'file name macros and .SYNC in dependents', 'file name macros or .SYNC in the dependents are not looked at')
            new = ('created',) in st.flags
            no = not new and g(('dbl',)) is False and g(('has',)) is True
            if g(('any',)) is not False and not no:
                ck(('cmddone',) in st.flags, 'the commands are added', 'the commands of a description block are not added to a target')
        for k in ('cur', 'np', 'npdone', 'exists', 'created', 'same', 'unk', 'can', 'depdone', 'expandFileNameMacrosForDependents', 'extractSyncPoints', 'has', 'cmddone', 'any'):
            st.flags.pop((k,), None)
        soft(st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        g = st.flags.get
        left = [k for k in st.flags if k[0] == 'lin' and (('np',) in st.flags or ('exists',) in st.flags)]
        self.ck(st, fr, node, not left, 'no target is left out', 'the loop over the targets of a description block is left early')
        self.ck(st, fr, node, g(('sep',)) is not True or ('inplace',) in st.flags, 'the command of the line', 'the command behind the semicolon is lost', self.PART)
        self.ck(st, fr, node, ('more',) in st.flags or g(('blank',)) is True, 'the lines behind', 'the lines behind a description block are not read as its commands', self.PART)
        self.ck(st, fr, node, g(('cmd',)) is False or g(('blank',)) is True, 'all command lines', 'not all command lines of a description block are read', self.PART)
        self.ck(st, fr, node, g(('fresh',)) == 1 or g(('cmd',)) is False, 'the next line', 'the line behind a description block is not read, or skipped', self.PART)


class Separator(Rule):
    """isDescriptionBlock: the first colon that is in no macro invocation and behind no drive letter."""
    R = 'C33.separator'

    def ck(self, st, fr, node, c, key, msg):
        self.rep.check(c, self.R, fr, node, key, msg, st)

    def char(self, st, t):
        """Index of a character of the line, or None."""
        t = strip_old(t)
        if t[0] == 'elem' and is_field(strip_old(t[1]), MLINE):
            return lin(strip_old(t[2]))
        return None

    def off(self, st, idx):
        """Position relative to the character that is looked at."""
        i = st.flags.get(('i',))
        if i is None:
            return None
        if idx[0] == i[0] or idx[0][0] == 'c' and i[0][0] == 'c':
            a = idx[1] + (idx[0][1] if idx[0][0] == 'c' else 0)
            b = i[1] + (i[0][1] if i[0][0] == 'c' else 0)
            return a - b
        return None

    def number(self, idx):
        return idx[0][1] + idx[1] if idx[0][0] == 'c' else None

    def branch(self, eng, st, fr, node, t, truth):
        x, v = strip_old(t), truth
        while x[0] == 'op' and x[1] == '!' and len(x) == 3:
            x, v = strip_old(x[2]), not v
        if x[0] == 'op' and x[1] == '==' and len(x) == 4:
            for y, z in ((x[2], x[3]), (x[3], x[2])):
                idx = self.char(st, y)
                if idx is not None and z[0] == 'c':
                    self.compare(st, idx, z[1], v)
                    return
        n = callname(x)
        if n in ('isLetter', 'isSpace', 'isSpaceOrTab') and isinstance(x[2] if x[2] is not None else (x[3][0] if x[3] else None), tuple):
            y = x[2] if x[2] is not None else x[3][0]
            idx = self.char(st, y)
            if idx is not None:
                if ('i',) not in st.flags:
                    st.flags[('first', n)] = v
                    return
                o = self.off(st, idx)
                if self.number(idx) == 0 and self.number(st.flags[('i',)]) is None:
                    st.flags[('at', 'first', n)] = v
                elif o is not None:
                    st.flags[('at', o, n)] = v
            return
        y, w = truths(t, truth)
        if y[0] == 'size' and is_field(strip_old(y[1]), MLINE):
            st.flags[('any',)] = w
            return
        if x[0] == 'op' and len(x) == 4:
            a, b = strip_old(x[2]), strip_old(x[3])
            sv = st.flags.get(('sv',))
            if sv is not None and (x[1] == '<' and a == sv and b == ('c', 0) or x[1] == '==' and ('c', -1) in (a, b) and sv in (a, b)) and v:
                return False        # the place of a character
            i = st.flags.get(('i',))
            if i is not None and i[0][0] != 'c':
                for y, z, sw in ((a, b, 0), (b, a, 1)):
                    if z[0] == 'c' and lin(y) == i:
                        if x[1] == '==':
                            st.flags[('i==', z[1])] = v
                        else:
                            st.flags[('i>', z[1] if sw else z[1] - 1)] = v if sw else not v
                        return
            if x[1] == '==' and ('c', 0) in (a, b):
                st.flags[('level0',)] = v
            if x[1] == '<' and b[0] == 'size' and is_field(strip_old(b[1]), MLINE):
                st.flags[('more', lin(a)[1] if i is not None and lin(a)[0] == i[0] else None)] = v
                if i is not None and self.off(st, lin(a)) == 1:
                    st.flags[('next',)] = v
        elif x[0] in ('r', 'j', 'p', 'old', 'm') and not callname(x):
            st.flags[('level0',)] = not v

    def compare(self, st, idx, c, v):
        if c in (40, 41, 58) and ('i',) not in st.flags:
            st.flags[('i',)] = idx
        o = self.off(st, idx)
        st.flags[('is', o, c)] = v

    def counted(self, fn):
        """Variables that are counted up or down."""
        ids = set()
        for n in fn.cfg.nodes:
            for e in (n.a, n.b):
                for x in walk(e):
                    if x.get('k') == 'un' and x.get('op') in ('++', 'p++', '--', 'p--') and isinstance(x.get('e'), dict) and x['e'].get('k') == 'var':
                        ids.add(x['e'].get('id'))
            if n.op == 'assign' and isinstance(n.a, dict) and n.a.get('k') == 'var' and n.c in ('+=', '-='):
                ids.add(n.a.get('id'))
        return ids

    def level0(self, st):
        v = st.flags.get(('level0',))
        return True if v is None and ('par',) not in st.flags else v

    def drive(self, st):
        """Is the colon the one of a drive letter? True, False or None (unknown)."""
        g = st.flags.get
        i = self.number(st.flags[('i',)])
        one = i == 1 if i is not None else g(('i==', 1))
        more = i > 1 if i is not None else g(('i>', 1))
        if more is None and g(('i>', 0)) is True and one is False:
            more = True
        if one is True:
            more = False
        if more is True:
            one = False
        first = g(('at', 'first', 'isLetter'), g(('first', 'isLetter')))
        if one is True and first is None:
            first = g(('at', -1, 'isLetter'))
        a = False if one is False or first is False else True if one is True and first is True else None
        pl, sp, q = g(('at', -1, 'isLetter')), g(('at', -2, 'isSpace'), g(('at', -2, 'isSpaceOrTab'))), g(('is', -2, 34))
        before = True if sp is True or q is True else False if sp is False and q is False else None
        b = False if more is False or pl is False or before is False else True if more is True and pl is True and before is True else None
        if i == 0:
            return False
        return True if a is True or b is True else False if a is False and b is False else None

    def write(self, eng, st, fr, node, loc, val, op):
        l = strip_old(loc)
        if val is None:
            return
        g = st.flags.get
        if op in ('+=', '-=') and ('i',) in st.flags:
            st.flags[('par',)] = 1
            if g(('is', 0, 40)) is True or g(('is', 0, 41)) is True:
                up = op == '+='
                self.ck(st, fr, node, g(('is', 0, 40 if up else 41)) is True, 'levels of parentheses', 'the level of parentheses is counted in the wrong direction')
                st.flags[('lev',)] = 1
            return
        par = self.which(l)
        if par == 0 and strip_old(val) != ('c', -1):
            i = g(('i',))
            self.ck(st, fr, node, i is not None and lin(strip_old(val)) == i and g(('is', 0, 58)) is True, 'the separator is a colon', 'something else than a colon is taken for the separator')
            self.ck(st, fr, node, self.level0(st) is True, 'no colon in a macro invocation', 'a colon in parentheses, as in a substitution, is taken for the separator')
            self.ck(st, fr, node, self.drive(st) is False if i is not None else False, 'no colon of a drive', 'the colon of a drive letter is taken for the separator')
            st.flags[('set',)] = 1
            st.flags[('sv',)] = strip_old(val)
        if par == 1:
            st.flags[('len',)] = strip_old(val)

    def which(self, l):
        """Number of the parameter that is written."""
        for i, p in enumerate(self.pars):
            if l[0] in ('p', 'loc', 'd', 'pl') and p in (l[-1], l[2] if len(l) > 2 else None):
                return i
            if any(isinstance(x, tuple) and x and x[-1] == p for x in subterms(l)):
                return i
        return None

    def loop(self, eng, st, fr, node, what, lid):
        g = st.flags.get
        if what == 'iter':
            for k in [k for k in st.flags if k[0] in ('is', 'at', 'i', 'i==', 'i>', 'level0', 'lev')]:
                del st.flags[k]
            return
        if ('i',) not in st.flags:
            return
        colon, l0 = g(('is', 0, 58)), self.level0(st)
        other = g(('is', 0, 40)) is True or g(('is', 0, 41)) is True
        self.ck(st, fr, node, not other or ('lev',) in st.flags, 'parentheses are counted', 'a parenthesis is not counted: a colon in a macro invocation may be taken for the separator')
        ok = colon is False or other or l0 is False or self.drive(st) is True
        self.ck(st, fr, node, ok, 'the first colon is the separator', 'a colon that is neither in parentheses nor behind a drive letter is passed over')
        for k in [k for k in st.flags if k[0] in ('is', 'at', 'i', 'i==', 'i>', 'level0', 'lev')]:
            del st.flags[k]
        for k, v in list(st.env.items()):
            if k[0] == 'v' and k[1] == fr.id and v[0] in ('c', 'op') and k[2] in self.counted(fr.fn):
                st.env[k] = ('r', fr.id, -1 - lid, 'var%s' % (k[2],))
        soft(st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        g = st.flags.get
        yes = val == ('c', 1)
        blank = g(('first', 'isSpaceOrTab'))
        if yes:
            two = g(('is', 1, 58))
            want = 2 if two is True else 1
            self.ck(st, fr, node, g(('len',)) == ('c', want) and (two is not None or g(('next',)) is False), 'length of the separator', 'a double colon is taken for a single one, or the other way round')
            self.ck(st, fr, node, ('set',) in st.flags and ('len',) in st.flags and blank is False, 'what is a description block', 'a line without separator, or one that begins with a blank, is taken for a description block')
        else:
            self.ck(st, fr, node, ('set',) not in st.flags and val == ('c', 0), 'a line with separator is a description block', 'a line with a separator is not taken for a description block')
            if blank is not True and g(('any',)) is not False:
                self.empty = True
    empty = False


class Comment(Rule):
    """removeCommentsAndFindCommandSeparator"""
    R = 'C33.comment'

    def ck(self, st, fr, node, c, key, msg):
        self.rep.check(c, self.R, fr, node, key, msg, st)

    def call(self, eng, st, fr, node, ci):
        n = short(ci.short)
        g = st.flags.get
        if n == 'indexOf' and ci.args and ci.args[0] in (('c', 35), ('c', 59)):
            ph = '#' if ci.args[0] == ('c', 35) else ';'
            if ph == '#' and g(('ph',)) == '#':
                esc, quo = g(('esc', ph)) is True, g(('quo', ph)) is True
                self.ck(st, fr, node, esc or quo and g(('neg', ph)) is False, 'a # that starts no comment', 'a # that is neither escaped nor quoted is passed over')
                self.ck(st, fr, node, not esc or ('rem', ph) in st.flags, 'carets are noted', 'the caret before a # is not removed')
            if ph == ';' and g(('ph',)) == ';':
                self.ck(st, fr, node, g(('quo', ph)) is True and g(('neg', ph)) is False, 'a semicolon that starts no command', 'a semicolon that is not quoted is passed over')
            st.flags[('ph',)] = ph
            for k in ('esc', 'neg', 'quo', 'rem', 'zero'):
                st.flags.pop((k, ph), None)
            if len(ci.args) > 1:
                f = strip_old(ci.args[1])
                self.ck(st, fr, node, f == ('c', 0) or lin(f)[1] == 1, 'the search goes on behind the last one', 'the search for the next one begins at the wrong character')
        if n in GROW and ci.recv is not None and ('ph',) in st.flags and g(('esc', '#')) is True:
            a = lin(strip_old(ci.args[-1]))
            self.ck(st, fr, node, a[1] == -1, 'the place of the caret', 'the place of another character than the caret is noted')
            st.flags[('rem', '#')] = 1
        l = rloc(ci)
        if ci.recv is not None and self.line(l):
            if n in ('truncate', 'chop', 'clear', 'resize') or n == 'remove' and not self.elem_arg(ci):
                a = strip_old(ci.args[0]) if ci.args else None
                ok = g(('neg', '#')) is False and (g(('neg', ';')) is True or g(('lt',)) is True) and n == 'truncate'
                self.ck(st, fr, node, ok, 'only comments are removed', 'the line is cut although there is no comment, or the # belongs to the command')
                st.flags[('cut',)] = 1
            elif n == 'remove':
                self.ck(st, fr, node, len(ci.args) > 1 and ci.args[1] == ('c', 1), 'one caret is removed', 'more than the caret is removed')
                self.ck(st, fr, node, ('cut',) in st.flags or g(('neg', ';')) is True or g(('inside',)) is True, 'carets of the command are kept', 'carets are removed from the command')
                st.flags[('gone',)] = 1

    def elem_arg(self, ci):
        a = strip_old(ci.args[0]) if ci.args else ('c', 0)
        return a[0] in ('elem', 'd', 'iter') or resname(a) in ('takeLast', 'takeFirst', 'last', 'first')

    def line(self, l):
        return any(isinstance(x, tuple) and x and x[-1] == self.par for x in [strip_old(l)] + list(subterms(l)))

    def is_quoted(self, t):
        t = strip_old(t)
        return t[0] == 'elem' and 'QVector' in str(t[1])[:400] or t[0] == 'elem' and strip_old(t[1])[0] in ('r', 'j', 'obj')

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        ph = st.flags.get(('ph',))
        if ph is None:
            if x[0] == 'op' and x[1] == '==' and ('c', 34) in x[2:]:
                st.flags[('q',)] = v
            return
        if x[0] == 'elem' and not (strip_old(x[1])[0] in ('p', 'loc') and strip_old(x[1])[-1] == self.par):
            st.flags[('quo', ph)] = v
            return
        if x[0] != 'op' or len(x) != 4:
            return
        a, b = strip_old(x[2]), strip_old(x[3])
        if x[1] == '==' and ('c', 94) in (a, b):
            o = b if a == ('c', 94) else a
            self.ck(st, fr, node, o[0] == 'elem' and lin(strip_old(o[2]))[1] == -1, 'the caret stands before the #', 'another character than the one before the # is taken for its escape')
            st.flags[('esc', ph)] = v
        elif x[1] == '<' and b == ('c', 0) or x[1] == '==' and ('c', -1) in (a, b):
            y = a if b in (('c', 0), ('c', -1)) else b
            return self.negative(st, self.kind(st, y, ph), v)
        elif x[1] == '<' and a == ('c', -1):
            return self.negative(st, self.kind(st, b, ph), not v)
        elif x[1] == '<' and a == ('c', 0):
            if v:
                return self.negative(st, self.kind(st, b, ph), False)
            st.flags[('zero', self.kind(st, b, ph))] = True
        elif x[1] == '<' and b == ('c', 1) or x[1] == '==' and ('c', 0) in (a, b):
            k = self.kind(st, a if b[0] == 'c' else b, ph)
            if v:
                st.flags[('zero', k)] = True
            elif x[1] == '<':
                return self.negative(st, k, False)
        elif x[1] == '<':
            ka, kb = self.kind(st, a, None), self.kind(st, b, None)
            if self.elem_term(a):
                st.flags[('inside',)] = v
            elif self.elem_term(b):
                st.flags[('inside',)] = not v
            elif ka == '#' and kb == ';':
                st.flags[('lt',)] = v
            elif ka == ';' and kb == '#':
                st.flags[('lt',)] = not v

    def negative(self, st, k, v):
        if k and st.flags.setdefault(('neg', k), v) != v:
            return False        # indexOf yields -1 or a place

    def elem_term(self, t):
        return strip_old(t)[0] in ('elem', 'd')

    def kind(self, st, t, ph):
        """Is a position one of a # or of a semicolon?"""
        t = strip_old(t)
        for x in subterms(t):
            if callname(x) == 'indexOf' and x[3] and x[3][0] in (('c', 35), ('c', 59)):
                return '#' if x[3][0] == ('c', 35) else ';'
        return st.flags.get(('pos', t))

    def base(self, st, v):
        v = strip_old(v)
        if v[0] == 'op' and v[1] in ('+', '-') and len(v) == 4 and v[3][0] == 'c':
            v = strip_old(v[2])
        return self.kind(st, v, None) if callname(v) == 'indexOf' or ('pos', v) in st.flags else None

    def after(self, eng, st, fr, node, ci, res):
        if short(ci.short) == 'indexOf' and ci.args and ci.args[0] in (('c', 35), ('c', 59)):
            if isinstance(res, tuple) and res[0] != 'm':
                st.flags[('pos', res)] = '#' if ci.args[0] == ('c', 35) else ';'

    def write(self, eng, st, fr, node, loc, val, op):
        l = strip_old(loc)
        if op in ('+=', '-=') and val is not None and l[0] == 'loc':
            k = self.base(st, st.env.get(('v', l[1], l[2]), ('c', 0)))
            if k:
                st.flags[('pos', strip_old(val))] = k
        if l[0] == 'elem' and ('ph',) not in st.flags and val is not None:
            i = lin(strip_old(l[2]))
            v = strip_old(val)
            if i == (('c', 0), 0) or strip_old(l[2]) == ('c', 0):
                ok = v[0] == 'op' and v[1] == '==' and ('c', 34) in v[2:]
                self.ck(st, fr, node, ok, 'quoted from the first character', 'the first character is not checked for a quote')
                return
            neg = False
            while v[0] == 'op' and v[1] == '!':
                neg, v = not neg, strip_old(v[2])
            ok = v[0] == 'elem' and strip_old(v[2]) is not None and lin(strip_old(v[2])) == (i[0], i[1] - 1) or v[0] == 'elem' and i[0][0] == 'c' and strip_old(v[2]) == ('c', i[0][1] + i[1] - 1)
            if not ok and i[0][0] == 'c':
                w = [x for x in subterms(v) if x[0] == 'elem']
                ok = v[0] == 'op' and v[1] == '==' and ('c', 34) in v[2:] and any(strip_old(x[2]) == ('c', i[0][1] + i[1] - 1) for x in w)
            if ok:
                q = st.flags.get(('q',))
                ok = q is not None and neg == q
            self.ck(st, fr, node, ok, 'characters in quotes', 'characters in double quotes are not told from others: # and ; in them are taken for comments and commands')
            st.flags[('vec',)] = 1

    def loop(self, eng, st, fr, node, what, lid):
        g = st.flags.get
        if what == 'iter':
            st.flags.pop(('gone',), None)
            st.flags.pop(('inside',), None)
            return
        ph = g(('ph',))
        if ph is None:
            self.ck(st, fr, node, ('vec',) in st.flags, 'every character', 'a character is not classified as quoted or not')
            st.flags.pop(('vec',), None)
            st.flags.pop(('q',), None)
        elif self.removal(fr, lid):
            self.ck(st, fr, node, ('gone',) in st.flags or g(('inside',)) is False, 'carets are removed', 'the caret before a # stays in the names')
            ok, why = loop_complete(fr.fn.cfg.loops[lid])
            self.ck(st, fr, node, ok, 'every caret is removed', 'a caret before a # stays in the names: ' + why)
            self.removed = True
        kinds = {k: self.base(st, v) for k, v in st.env.items() if k[0] == 'v'}
        minus = [k for k, v in st.env.items() if k[0] == 'v' and v == ('c', -1)]
        for k in [k for k in st.flags if k[0] == 'pos']:
            del st.flags[k]
        forget(st, fr, lid)
        for k, v in kinds.items():
            if v:
                st.env.setdefault(k, ('r', fr.id, -1 - lid, 'pos%s' % (k[2],)))
                st.flags[('pos', strip_old(st.env[k]))] = v
        for k in minus:
            st.env[k] = ('c', -1)
    removed = False

    def removal(self, fr, lid):
        """Does the loop remove carets?"""
        for n in fr.fn.cfg.nodes:
            if n.loop == lid and n.op == 'call' and isinstance(n.b, dict) and str(n.b.get('f', '')).endswith('QString::indexOf'):
                return False
        return True

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        g = st.flags.get
        if ('ph',) not in st.flags:
            self.ck(st, fr, node, val == ('c', -1), 'an empty line', 'an empty line has a command')
            return
        com = g(('neg', '#'))
        sep = g(('neg', ';'))
        self.ck(st, fr, node, com is True or g(('quo', '#')) is False and (g(('esc', '#')) is False or g(('zero', '#')) is True), 'the comment found', 'a # that is quoted or escaped is taken for a comment')
        self.ck(st, fr, node, sep is True or g(('quo', ';')) is False, 'the command found', 'a semicolon in quotes is taken for the begin of a command')
        want = com is False and (sep is True or g(('lt',)) is True)
        sure = com is True or sep is not None and (sep is True or g(('lt',)) is not None)
        self.ck(st, fr, node, sure and (('cut',) in st.flags) == want, 'comments are removed', 'a comment is not removed, or the # in a command is taken for one')
        v = strip_old(val)
        if want:
            self.ck(st, fr, node, v == ('c', -1), 'no command in a comment', 'a semicolon in a comment is taken for the begin of a command')
        elif sep is False:
            self.ck(st, fr, node, self.base(st, v) == ';', 'the command is kept', 'the place of the command is lost')


@check('C33')
def c33(prog, rep):
    rep.rule('C33.block', 'Every target of a description block gets the dependents and, unless it has some and its separator is a single colon, the commands; it is created once and remembers its separator; : and :: for the same target are an error.')
    rep.rule('C33.parts', 'Targets stand before the separator, dependents between it and the semicolon, the first command behind that; the other commands are the lines that follow at once, each read once.')
    rep.rule('C33.separator', 'The separator is the first colon outside of parentheses that is not part of a drive letter; two colons are one separator.')
    rep.rule('C33.comment', 'A comment begins at the first # that is neither quoted nor escaped, a command at the first semicolon that is not quoted, whichever comes first; the carets of escaped # are removed, except in the command.')
    for f in prog.fns('Parser::parseDescriptionBlock'):
        mon = Block(prog, rep)
        mon.par = [p['n'] for p in f.d['params']]
        mon.unknown, mon.enabled, mon.disabled = (enum_value(prog, n) for n in ('ACSUnknown', 'ACSEnabled', 'ACSDisabled'))
        run_roots(prog, rep, mon, [f], noinline=('Parser::readLine', 'MacroTable::expandMacros', 'Parser::parseCommandLine', 'Parser::parseCommand', 'Parser::extractSyncPoints', 'splitTargetNames',
                                                 'expandWildcards', 'Parser::createTarget', 'Makefile::target', 'DescriptionBlock::expandFileNameMacrosForDependents', 'Makefile::dirPath', 'Parser::error',
                                                 'Makefile::setParallelExecutionDisabled', 'Preprocessor::macroTable'), limit=200)
        if mon.tloop is None:
            rep.bad('C33.block', f.short, f.line, 'targets of a block', 'the targets of a description block are not looked at', None, file=f.file)
    for f in prog.fns('Parser::isDescriptionBlock'):
        mon = Separator(prog, rep)
        mon.pars = [p['n'] for p in f.d['params']]
        run_roots(prog, rep, mon, [f], noinline=('removeCommentsAndFindCommandSeparator', 'isSpaceOrTab'), limit=200)
    searched = False
    for f in prog.fns('removeCommentsAndFindCommandSeparator'):
        # the rule follows searches; a scan character by character is not judged
        fns = [f] + [g for e in prog.call_exprs(f) for t in prog.targets(e) for g in [prog.funcs.get(t) if isinstance(t, str) else t] if g is not None and g.file == f.file]
        seen = {x['v'] for g in fns for e in prog.call_exprs(g) if str(e.get('f', '')).endswith('QString::indexOf') for x in walk(e.get('a')) if x.get('k') in ('char', 'int') and 'v' in x}
        if not {35, 59} <= seen:
            continue
        searched = True
        mon = Comment(prog, rep)
        mon.par = f.d['params'][0]['n']
        run_roots(prog, rep, mon, [f], limit=400, small=0, heapkeep=())
        if not mon.removed:
            rep.bad('C33.comment', f.short, f.line, 'carets', 'the carets of escaped # are not removed', None, file=f.file)
    for r, n in (('C33.block', 8), ('C33.parts', 6), ('C33.separator', 5), ('C33.comment', 6)):
        if r != 'C33.comment' or searched:
            rep.require(r, n)
