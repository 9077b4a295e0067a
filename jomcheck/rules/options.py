"""C24: options have the documented effect."""
from .common import *
from .registry import check
from .executor import cur

O = NS + 'Options::'
G = NS + 'GlobalOptions::'

# documented letters: field -> value
SHORT = {
    'A': {O + 'buildAllTargets': 1}, 'B': {O + 'buildIfTimeStampsAreEqual': 1}, 'C': {O + 'suppressOutputMessages': 1},
    'D': {O + 'displayBuildInfo': 1}, 'E': {O + 'overrideEnvVarMacros': 1}, 'F': {'file': 1}, 'G': {O + 'displayIncludeFileNames': 1},
    'H': {O + 'showUsageAndExit': 1}, '?': {O + 'showUsageAndExit': 1}, 'I': {O + 'stopOnErrors': 0},
    'J': {G + 'maxNumberOfJobs': 'n', G + 'isMaxNumberOfJobsSet': 1}, 'K': {O + 'buildUnrelatedTargetsOnError': 1},
    'L': {O + 'showLogo': 0}, 'N': {O + 'dryRun': 1}, 'P': {O + 'displayMakeInformation': 1},
    'Q': {O + 'checkTimeStampsButDoNotBuild': 1}, 'R': {O + 'ignorePredefinedRulesAndMacros': 1},
    'S': {O + 'suppressExecutedCommandsDisplay': 1}, 'T': {O + 'changeTimeStampsButDoNotBuild': 1}, 'U': {O + 'dumpInlineFiles': 1},
    'W': {O + 'printWorkingDir': 1}, 'X': {O + 'stderrFile': 's'}, 'Y': {O + 'batchModeEnabled': 0}}
LONG = {
    'NOLOGO': {O + 'showLogo': 0}, 'DUMPGRAPHDOT': {O + 'dumpDependencyGraph': 1, O + 'dumpDependencyGraphDot': 1, O + 'showLogo': 0},
    'DUMPGRAPH': {O + 'dumpDependencyGraph': 1, O + 'showLogo': 0}, 'DEBUG': {O + 'debugMode': 1}, 'ERRORREPORT': {},
    'VERSION': {O + 'showVersionAndExit': 1}}
# options nothing depends on
DEAD = {O + 'buildIfTimeStampsAreEqual', O + 'displayIncludeFileNames', O + 'checkTimeStampsButDoNotBuild',
        O + 'changeTimeStampsButDoNotBuild', O + 'debugMode'}
DEFAULT = {O + 'showLogo': 1, O + 'stopOnErrors': 1, O + 'batchModeEnabled': 1}


def field_writes(node):
    """CFG nodes that write an option."""
    for e in (node.a, node.b):
        if isinstance(e, dict) and e.get('k') == 'mem' and (e.get('n') or '').startswith((O, G)) and node.op == 'assign':
            return True
    if node.op == 'call' and node.b.get('f') in ('QString::startsWith', 'QString::toUInt', 'QString::chop', 'QString::remove', 'QString::append',
                                                 'QString::operator+=', 'QList::takeFirst', 'QList<QString>::takeFirst', 'QList<QString>::removeFirst'):
        return True
    return False


def const(st, t):
    """A term as a constant, if it is one (also lengths of literals)."""
    t = strip_old(t)
    if t[0] == 'c':
        return t
    if callname(t) in ('qstrlen', 'strlen') or t[0] == 'size' or resname(t) in ('qstrlen', 'strlen', 'size', 'length'):
        l = [y[1] for y in subterms(t) if y[0] == 's']
        if len(l) == 1:
            return ('c', len(l[0]))
    return ('x',)


class Options(Rule):
    """One iteration of the loop over the letters of an argument: what is set is what the option stands for."""

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.seen = set()
        self.cases = {}

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.par = [('p', fr.fn.key, p['n']) for p in fr.fn.d['params']]
            self.pid = [('v', fr.id, p['id']) for p in fr.fn.d['params']]

    def is_par(self, loc, i):
        l = strip_old(loc) if loc is not None else ('none',)
        if l == self.par[i]:
            return True
        return l[0] == 'loc' and ('v',) + tuple(l[1:3]) == self.pid[i]

    def reset(self, st):
        for k in [k for k in st.flags if k[0] in ('w', 'ch', 'long', 'mf', 'in', 'cut', 'num', 'ok', 'pos', 'src', 'clr', 'not', 'look', 'dead', 'raw', 'nraw')]:
            del st.flags[k]

    def loop(self, eng, st, fr, node, what, lid):
        if fr.parent is not None:
            return
        o = st.flags.get(('outer',))
        if o is None:
            st.flags[('outer',)] = o = lid
        if lid != o:
            return
        if what == 'back':
            self.judge(st, fr, node)
            forget(st, fr, lid)
        self.reset(st)

    def branch(self, eng, st, fr, node, term, truth):
        t, v = strip_old(term), truth
        while t[0] == 'op' and t[1] == '!':
            t, v = t[2], not v
        if t[0] == 'op' and t[1] == '==' and (t[2][0] == 'c') != (t[3][0] == 'c'):
            c, x = (t[2], t[3]) if t[2][0] == 'c' else (t[3], t[2])
            if 32 < c[1] < 127:
                up = any(callname(y) in ('toUpper', 'toCaseFolded') or y[0] == 'j' for y in subterms(x))
                self.letter(st, chr(c[1]), up, v)
            return
        if callname(t) == 'startsWith' and len(t) > 3 and t[3] and t[3][0][0] in ('s', 'obj'):
            s = [y[1] for y in subterms(t[3]) if y[0] == 's']
            if s:
                if v:
                    st.flags[('long',)] = s[0]
                else:
                    st.flags[('not', s[0])] = 1
        if callname(t) in ('contains', 'indexOf') and ('look',) in st.flags:
            st.flags[('in',)] = int(v)
        n = st.flags.get(('num',))
        if n and t[0] == 'r' and t[1:3] == n[0][1:3] and t != n[0]:
            st.flags[('ok',)] = int(v)
        if n and t[0] == 'op' and t[1] == '<':
            a, b = t[2], t[3]
            if self.is_num(a, n) and b[0] == 'c' and not v and b[1] >= 1:
                st.flags[('pos',)] = 1
            if self.is_num(b, n) and a[0] == 'c' and v and a[1] >= 0:
                st.flags[('pos',)] = 1

    def letter(self, st, ch, up, v):
        fl = st.flags
        old = fl.get(('ch',))
        if v:
            if old is not None and old != ch.upper() or up and ('nraw', ch) in fl and ('nraw', ch.lower()) in fl:
                fl[('dead',)] = 1       # the letter is another one: no such path
            fl[('ch',)] = ch.upper()
            if not up:
                fl[('raw',)] = ch
        elif up and old == ch.upper():
            fl[('dead',)] = 1
        elif not up:
            fl[('nraw', ch)] = 1

    def is_num(self, t, n):
        return t == n[0] or t[0] == 'f' and t[2] == G + 'maxNumberOfJobs'

    def call(self, eng, st, fr, node, ci):
        r = ci.rloc
        if self.is_par(r, 4):
            if ci.short == 'contains':
                st.flags[('look',)] = 1
            mf = st.flags.get(('mf',), '')
            if ci.short in ('append', 'operator+=', 'push_back', 'operator='):
                n = st.flags.get(('num',))
                a = ci.alocs[0] if ci.alocs else None
                lit = [y for y in subterms(ci.args[0]) if y[0] in ('s', 'c')] if ci.args and ci.args[0][0] in ('c', 's', 'obj') else []
                if n and a is not None and strip_old(a) == n[1] or n and ci.args and strip_old(ci.args[0]) == n[2]:
                    mf += 'n'
                elif lit:
                    mf += 'L' if lit[0][1] in (ord('L'), 'L') else '!'
                else:
                    mf += 'c'
            elif ci.short == 'chop':
                mf += '-'
            elif ci.short == 'remove':
                mf += 'r'
            elif not ci.e.get('const') and ci.short not in ('data',):
                mf += '!'
            st.flags[('mf',)] = mf
        if ci.short in ('clear', 'truncate', 'resize') and self.is_par(r, 1) and (not ci.args or ci.args[0] == ('c', 0)):
            st.flags[('clr',)] = 1
        if ci.short == 'remove' and ci.args and ci.args[0] == ('c', 0) and self.is_par(r, 1):
            st.flags[('cut',)] = st.flags.get(('cut',), ()) + (const(st, ci.args[1]),)

    def after(self, eng, st, fr, node, ci, res):
        if ci.short in ('toUInt', 'toInt') and res is not None:
            st.flags[('num',)] = (strip_old(res), strip_old(ci.rloc) if ci.rloc is not None else ('none',),
                                  strip_old(ci.recv) if ci.recv is not None else ('none',))

    def write(self, eng, st, fr, node, loc, val, op):
        if val is None:
            return
        l = strip_old(loc)
        f = l[2] if l[0] == 'f' else 'file' if self.is_par(l, 3) else None
        if f is None or not (f == 'file' or f.startswith((O, G))):
            if self.is_par(l, 1) and (val[0] == 'dflt' or val == ('s', '')):
                st.flags[('clr',)] = 1
            return
        if f in ('file', O + 'stderrFile'):
            v = 1
            st.flags[('src',)] = 'next' if any('takeFirst' in str(y) or (isinstance(y, str) and y.startswith('element of')) for x in subterms(val) for y in x) else 'arg'
        else:
            t = st.truth(val)
            n = st.flags.get(('num',))
            v = int(t) if t is not None else 'n' if n and strip_old(val) == n[0] else '?'
        st.flags[('w', f)] = v

    def ret(self, eng, st, fr, node, val):
        if fr.parent is not None:
            return
        if val is not None and st.truth(val) is True and (('ch',) in st.flags or ('long',) in st.flags or any(k[0] == 'w' for k in st.flags)):
            self.judge(st, fr, node)

    def judge(self, st, fr, node):
        fl = st.flags
        if ('dead',) in fl:
            return
        if ('ch',) in fl:
            self.cases.setdefault(fl[('ch',)], set()).add(fl.get(('raw',), '*'))
        ch, lg = fl.get(('ch',)), fl.get(('long',))
        name = '/' + (lg or '') + (' ' if lg and ch else '') + (ch or '')
        got = {k[1]: v for k, v in fl.items() if k[0] == 'w'}
        want = {}
        cuts = [c[1] if c[0] == 'c' else None for c in fl.get(('cut',), ())]
        if lg is not None:
            self.seen.add(lg)
            ok = self.rep.check(lg in LONG, 'C24.table', fr, node, 'option %s is known' % lg, 'there is no option /%s' % lg, st)
            want.update(LONG.get(lg, {}))
            self.rep.check(all(('not', x) in fl for x in LONG if x != lg and x.startswith(lg)), 'C24.table', fr, node,
                           'a longer name is recognised before /%s' % lg, 'an option whose name starts with %s is taken for /%s' % (lg, lg), st)
            if cuts:
                self.rep.check(cuts[0] == len(lg), 'C24.cut', fr, node, '/%s is removed as a whole' % lg,
                               'of /%s, %s characters are removed' % (lg, cuts[0]), st)
                cuts = cuts[1:]
            else:
                self.rep.check(False, 'C24.cut', fr, node, '/%s is removed' % lg, '/%s is not removed: its letters are taken for options' % lg, st)
        if ch is None and lg is None:
            if cuts:
                self.rep.check(False, 'C24.unknown', fr, node, 'unknown options are errors', 'an unknown option is accepted', st)
            return
        if ch is not None:
            self.seen.add(ch)
            self.rep.check(ch in SHORT, 'C24.table', fr, node, 'option %s is known' % ch, 'there is no option /%s' % ch, st)
            want.update(SHORT.get(ch, {}))
            self.rep.check(cuts[:1] == [1], 'C24.cut', fr, node, 'the letter is removed', 'the letter of /%s is not removed from the argument' % ch, st)
        for f in sorted(set(want) | set(got)):
            s = f.split('::')[-1]
            w, g = want.get(f), got.get(f)
            if w == 's':
                w = 1
            if w is None:
                if g == '?':
                    continue
                self.rep.check(False, 'C24.table', fr, node, '%s sets nothing else' % name, 'option %s changes %s, too' % (name, s), st)
            else:
                self.rep.check(g is not None and g == w, 'C24.table', fr, node, '%s sets %s' % (name, s),
                               'option %s does not set %s%s' % (name, s, '' if w == 'n' or s == 'file' else ' to %s' % ('true' if w else 'false')), st)
        if ch in ('F', 'X'):
            self.rep.check(fl.get(('src',)) == 'next' or ('clr',) in fl, 'C24.argument', fr, node,
                           'the rest of the argument of /%s is its file name' % ch, 'the file name after /%s is read as further options' % ch, st)
        if ch == 'J':
            self.rep.check(fl.get(('ok',)) == 1 and ('pos',) in fl, 'C24.argument', fr, node, 'the number of jobs is a number of at least 1',
                           'what follows /J is accepted without being a number of at least 1', st)
        self.flags(st, fr, node, ch, lg)

    def flags(self, st, fr, node, ch, lg):
        fl = st.flags
        mf = fl.get(('mf',), '')
        if lg == 'NOLOGO':
            self.rep.check('L' in mf, 'C24.makeflags', fr, node, '/NOLOGO is passed on as L', '/NOLOGO is missing in MAKEFLAGS', st)
            mf = mf.replace('L', '', 1)
        if ch is None:
            return
        self.rep.check('!' not in mf and 'L' not in mf, 'C24.makeflags', fr, node, 'MAKEFLAGS gets letters that were given',
                       'MAKEFLAGS is changed in another way than by adding the letter of the option', st)
        net = 0
        for c in mf:
            net += {'c': 1, '-': -1}.get(c, 0)
        if ch in ('F', 'X'):
            if fl.get(('in',)) != 1:
                self.rep.check(net == 0, 'C24.makeflags', fr, node, '/%s is not passed on' % ch,
                               'MAKEFLAGS %s for option /%s' % ('gets a letter' if net > 0 else 'loses a letter of another option', ch), st)
        elif ch == 'J':
            self.rep.check(mf.endswith('cn'), 'C24.makeflags', fr, node, 'the number of jobs is passed on after its letter',
                           'MAKEFLAGS does not end with the letter and the number of /J', st)
            if fl.get(('in',)) == 1:
                self.rep.check('r' in mf, 'C24.makeflags', fr, node, 'the last /J replaces the ones before',
                               'the number of a former /J stays in MAKEFLAGS', st)
        else:
            self.rep.check(net == 1 or net == 0 and fl.get(('in',)) == 1, 'C24.makeflags', fr, node, '/%s is passed on once' % ch,
                           'MAKEFLAGS %s for option /%s' % ('gets no letter' if net <= 0 else 'gets more than one letter', ch), st)


class Read(Rule):
    """readCommandLineArguments: kinds of arguments, /I overrides /K, MAKEFLAGS is set from the letters."""

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.par = [('p', fr.fn.key, p['n']) for p in fr.fn.d['params']]
            self.pid = [('v', fr.id, p['id']) for p in fr.fn.d['params']]

    def is_par(self, loc, i):
        l = strip_old(loc) if loc is not None else ('none',)
        return l == self.par[i] or l[0] == 'loc' and ('v',) + tuple(l[1:3]) == self.pid[i]

    def reset(self, st):
        for k in [k for k in st.flags if k[0] in ('dash', 'look', 'eq', 'did', 'has')]:
            del st.flags[k]

    def loop(self, eng, st, fr, node, what, lid):
        if fr.parent is None:
            if what == 'back':
                d = st.flags.get(('did',), '')
                if ('dash',) in st.flags:
                    want = 'O'
                elif ('eq',) in st.flags:
                    want = 'M'
                else:
                    want = 'T'
                txt = {'O': 'an argument that starts with - or / is an option', 'M': 'an argument with = defines a macro', 'T': 'any other argument is a target'}[want]
                if d or st.flags.get(('has',)) != 1 and want == 'T':
                    self.rep.check(set(d) == {want}, 'C24.kinds', fr, node, txt, 'not so: ' + txt, st)
                forget(st, fr, lid)
            self.reset(st)

    def branch(self, eng, st, fr, node, term, truth):
        t, v = strip_old(term), truth
        while t[0] == 'op' and t[1] == '!':
            t, v = t[2], not v
        if t[0] == 'op' and t[1] == '==':
            for c, x in ((t[2], t[3]), (t[3], t[2])):
                if c[0] == 'c' and c[1] in (ord('-'), ord('/')) and v:
                    st.flags[('dash',)] = 1
        n = callname(t)
        if n == 'startsWith' and v and any(y in (('c', 45), ('c', 47)) for y in subterms(t)):
            st.flags[('dash',)] = 1
        if n == 'contains' and t[3] and any(y == ('c', 61) for y in subterms(t[3])) and v:
            st.flags[('eq',)] = 1
        if n == 'contains' and ('look',) in st.flags and not any(y == ('c', 61) for y in subterms(t[3])):
            st.flags[('has',)] = int(v)

    def did(self, st, c):
        d = st.flags.get(('did',), '')
        if c not in d:
            st.flags[('did',)] = d + c

    def call(self, eng, st, fr, node, ci):
        if ci.short == 'contains' and self.is_par(ci.rloc, 2):
            st.flags[('look',)] = 1
        if ci.name == O + 'handleCommandLineOption':
            self.did(st, 'O')
        elif ci.name in (NS + 'MacroTable::defineCommandLineMacroValue', NS + 'MacroTable::defineImplicitCommandLineMacroValue'):
            self.did(st, 'M')
        elif ci.short in ('append', 'push_back', 'operator<<', 'operator+=') and self.is_par(ci.rloc, 2):
            self.did(st, 'T')
            self.rep.check(st.flags.get(('has',)) == 0, 'C24.kinds', fr, node, 'a target is recorded once', 'a target may be recorded twice', st)
        elif ci.short in ('prepend', 'push_front', 'insert') and self.is_par(ci.rloc, 2):
            self.did(st, 'X')
        elif ci.name == NS + 'MacroTable::setMacroValue' and ci.args and any(y == ('s', 'MAKEFLAGS') for y in subterms(ci.args[0])):
            st.flags[('mfset',)] = 1

    def ret(self, eng, st, fr, node, val):
        if fr.parent is not None or val is None or st.truth(val) is not True:
            return
        i = cur(st, fr.this, 'Options::stopOnErrors')
        k = cur(st, fr.this, 'Options::buildUnrelatedTargetsOnError')
        ok = i is not None and st.truth(i) is True or k is not None and st.truth(k) is False
        self.rep.check(ok, 'C24.override', fr, node, '/I overrides /K', '/I and /K may both be in effect', st)
        self.rep.check(('mfset',) in st.flags, 'C24.makeflags', fr, node, 'MAKEFLAGS is set', 'the macro MAKEFLAGS is not set', st)


class Guard(Rule):
    """Effects happen only if the option says so, and always if it does."""

    def __init__(self, prog, rep, sites):
        """sites: (key, predicate on the call, field, value the field must have, always, text)"""
        Rule.__init__(self, prog, rep)
        self.sites = sites
        self.hit = set()
        names = {n for x in sites for n in getattr(x[1], 'names', ())}
        names |= {NS + n for n in names}
        self.small = {f.key for f in prog.funcs.values() if len(f.cfg.nodes) <= 60 and any(
            c.get('k') == 'call' and c.get('f') in names for c in prog.call_exprs(f))}

    def inline(self, eng, fn):
        return True if fn.key in self.small else None

    def branch(self, eng, st, fr, node, term, truth):
        t, v = truths(term, truth)
        f = opt_field(t)
        if f:
            st.flags[('o', f)] = int(v)

    def call(self, eng, st, fr, node, ci):
        for key, pred, field, want, always, text in self.sites:
            if pred(ci):
                self.hit.add(key)
                self.rep.check(st.flags.get(('o', O + field)) == want, 'C24.effect', fr, node, text, 'not so: %s' % text, st)
                st.flags[('did', key)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret' or ('exc',) in st.flags:
            return
        for key, pred, field, want, always, text in self.sites:
            if always and st.flags.get(('o', O + field), want if always == 2 else None) == want:
                self.rep.check(('did', key) in st.flags, 'C24.effect', fr, node, text + ' (always)', 'not always so: %s' % text, st)


    def caught(self, eng, st, fr, node):
        st.flags[('exc',)] = 1


class Defaults(Rule):
    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        cls = fr.fn.cls
        for f in self.p.records[cls]['fields']:
            if f['t'] != 'b':
                continue
            v = cur(st, fr.this, f['n'][len(NS):])
            t = st.truth(v) if v is not None else None
            want = DEFAULT.get(f['n'], 0)
            self.rep.check(t is not None and int(t) == want, 'C24.default', fr, node, '%s is %s by default' % (f['n'].split('::')[-1], bool(want)),
                           '%s is not %s if the option is not given' % (f['n'].split('::')[-1], 'true' if want else 'false'), st)


class Fn(object):
    def __init__(self, fn):
        self.fn = fn


def called(*names):
    def p(ci):
        return any(ci.has(n) for n in names)
    p.names = names
    return p


def prints(text):
    return lambda ci: ci.short in ('printf', 'puts', 'fprintf', 'fputs', 'fwrite', 'writeToStandardOutput', 'CommandExecutor::writeToStandardOutput') and any(
        text in l for a in ci.args for l in lits(a))


EFFECTS = [
    ('main', (), [
        ('macros', called('MacroTable::dump'), 'displayMakeInformation', 1, True, 'the macros are printed with /P'),
        ('rules', called('Makefile::dumpInferenceRules'), 'displayMakeInformation', 1, True, 'the inference rules are printed with /P'),
        ('targets', called('Makefile::dumpTargets'), 'displayMakeInformation', 1, True, 'the targets are printed with /P'),
        ('enter', prints('Entering'), 'printWorkingDir', 1, False, 'the working directory is printed with /W'),
        ('leave', prints('Leaving'), 'printWorkingDir', 1, True, 'the working directory is printed with /W afterwards'),
        ('build', called('TargetExecutor::apply'), 'showUsageAndExit', 0, False, 'nothing is built with /H'),
        ('build2', called('TargetExecutor::apply'), 'showVersionAndExit', 0, False, 'nothing is built with /VERSION'),
        ('version', prints('jom version %'), 'showVersionAndExit', 1, True, 'the version is printed with /VERSION'),
        ('logo', called('showLogo'), 'showLogo', 1, False, 'no logo is printed with /NOLOGO')]),
    (NS + 'MakefileFactory::apply', (), [
        ('predefined', called('MacroTable::predefineValue'), 'ignorePredefinedRulesAndMacros', 0, True, 'macros are predefined unless /R is given'),
        ('parse', called('Parser::apply'), 'showUsageAndExit', 0, False, 'no makefile is read with /H')]),
    (NS + 'TargetExecutor::apply', ('DependencyGraph::build',), [
        ('dump', called('DependencyGraph::dump'), 'dumpDependencyGraph', 1, False, 'the graph is printed with /DUMPGRAPH'),
        ('nodot', called('DependencyGraph::dump'), 'dumpDependencyGraphDot', 0, True, 'the graph is printed as a tree with /DUMPGRAPH'),
        ('dot', called('DependencyGraph::dotDump'), 'dumpDependencyGraphDot', 1, True, 'the graph is printed for dot with /DUMPGRAPHDOT')]),
    (NS + 'DependencyGraph::displayNodeBuildInfo', (), [
        ('info', lambda ci: ci.short in ('puts', 'printf', 'fputs', 'fwrite'), 'displayBuildInfo', 1, 2, 'time and target are printed with /D')]),
    (NS + 'CommandExecutor::createTempFiles', (), [
        ('inline', prints('end of inline file'), 'dumpInlineFiles', 1, False, 'inline files are printed with /U')]),
    (NS + 'Makefile::applyInferenceRule', (), [
        ('batch', lambda ci: ci.short == 'insert' and (is_container(ci, 'Makefile::m_batchModeTargets') or is_container(ci, 'Makefile::m_batchModeRules')),
         'batchModeEnabled', 1, False, 'batch rules are applied one by one with /Y')]),
]


def opt_field(t):
    t = strip_old(t)
    if t[0] == 'f' and t[2].startswith((O, G)):
        return t[2]
    return None


def lits(t):
    return [y[1] for y in subterms(t) if y[0] == 's']


@check('C24')
def c24(prog, rep):
    rep.rule('C24.table', 'an option sets exactly what its description says')
    rep.rule('C24.case', 'letters of options are compared without regard to case')
    rep.rule('C24.cut', 'an option is removed from the argument as a whole, and nothing else')
    rep.rule('C24.unknown', 'an unknown option is an error')
    rep.rule('C24.argument', 'options with an argument take the rest, or the next argument')
    rep.rule('C24.makeflags', 'MAKEFLAGS holds the letter of each option in effect but /F and /X, and the last number of jobs')
    rep.rule('C24.kinds', 'arguments are options, macro definitions or targets')
    rep.rule('C24.override', '/I overrides /K')
    rep.rule('C24.default', 'options that are not given are off')
    rep.rule('C24.effect', 'what is printed or predefined depends on the option')
    h = prog.fn(O + 'handleCommandLineOption')
    m = Options(prog, rep)
    run_roots(prog, rep, m, [h], events=field_writes, limit=400, heapkeep=())
    for ch, raws in sorted(m.cases.items()):
        rep.check(not ch.isalpha() or '*' in raws or len(raws) > 1, 'C24.case', Fn(h), None, 'option %s is recognised in both cases' % ch,
                  "the option '%s' is only recognised in one case" % ch, None)
    for x in list(SHORT) + list(LONG):
        if x not in m.seen:
            rep.bad('C24.table', h.short, h.line, 'option /%s exists' % x, 'option /%s does not exist any more' % x, None)
    run_roots(prog, rep, Read(prog, rep), [prog.fn(O + 'readCommandLineArguments')], limit=60,
              noinline=('Options::handleCommandLineOption', 'Options::expandCommandFiles'))
    for cls in ('Options', 'GlobalOptions'):
        run_roots(prog, rep, Defaults(prog, rep), [f for f in prog.fns(NS + cls + '::' + cls) if not f.d['params']], heapkeep=None)
    for name, noinline, sites in EFFECTS:
        g = Guard(prog, rep, sites)
        run_roots(prog, rep, g, [f for f in prog.fns(name)], noinline=noinline + ('showUsage', 'initJobServer', 'CommandExecutor::writeToStandardOutput', 'DependencyGraph::displayNodeBuildInfo'), limit=60,
                  heapkeep=())
        for key, pred, field, want, always, text in sites:
            if key not in g.hit and key not in ('build', 'build2', 'parse', 'logo'):
                rep.bad('C24.effect', prog.fns(name)[0].short, prog.fns(name)[0].line, text + ' (missing)', 'nowhere: %s' % text, None)
    rep.require('C24.table', 30)
    rep.require('C24.makeflags', 20)
    rep.require('C24.kinds', 3)
