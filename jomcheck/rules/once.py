"""C28: every piece of makefile text is expanded exactly once, when it is used."""
from .common import *
from .registry import check
from .infer import FUNCTIONS, Rule, EachRule, short, rloc, fieldname, soft, Strings

LINE, NAME, TEXT = 'Command::m_commandLine', 'InlineFile::m_filename', 'InlineFile::m_content'
FIELDS = (LINE, NAME, TEXT)
MLINE = 'Parser::m_line'
FILES = 'Command::m_inlineFiles'
COMMANDS = 'CommandContainer::m_commands'


def field_of(t):
    t = strip_old(t)
    for f in FIELDS:
        if is_field(t, f):
            return f
    return None


class Marked(Rule):
    """How often the text a value is made of has been expanded: flags ('n', value)."""

    def times(self, st, t, depth=0):
        """The greatest number of expansions of a text a value is made of."""
        if not isinstance(t, tuple) or not t or depth > 12:
            return 0
        v = st.flags.get(('n', t))
        if v is None:
            v = st.flags.get(('n', strip_old(t)))
        if v is not None:
            return v
        t = strip_old(t)
        if t[0] in ('m', 'obj'):
            xs = [t[2]] + list(t[3]) if t[0] == 'm' else list(t[2:])
            return max([self.times(st, x, depth + 1) for x in xs if isinstance(x, tuple)] + [0])
        if t[0] in ('elem', 'old'):
            return self.times(st, t[1], depth + 1)
        return self.leaf(st, t)

    def leaf(self, st, t):
        return 0

    def mark(self, st, t, n):
        st.flags[('n', t)] = n
        s = strip_old(t)
        if s is not t:
            st.flags[('n', s)] = n

    def call(self, eng, st, fr, node, ci):
        n = short(ci.short)
        if n == 'expandMacros' and ci.args:
            k = self.times(st, ci.args[0])
            self.rep.check(k == 0, self.R, fr, node, 'expanded text is not expanded again', 'text is expanded that has been expanded already: what looks like a macro in the value of a macro, and every $$, is lost', st)
            st.flags[('now',)] = k + 1
            self.expands(eng, st, fr, node, ci)
        else:
            st.flags[('now',)] = max([self.times(st, x) for x in [ci.recv] + list(ci.args) if x is not None] + [0])
            if ci.recv is not None and not ci.e.get('const'):
                st.flags[('chg',)] = 1

    def expands(self, eng, st, fr, node, ci):
        pass

    def after(self, eng, st, fr, node, ci, res):
        k = st.flags.pop(('now',), None)
        if k is None:
            return
        chg = st.flags.pop(('chg',), None)
        if short(ci.short) == 'expandMacros':
            self.mark(st, res, k)
        elif k:
            if isinstance(res, tuple) and res and res[0] == 'r':
                self.mark(st, res, k)
            if chg and ci.rloc is not None:
                t = eng.read(st, ci.rloc)
                if t is not None:
                    self.mark(st, t, k)

    def unmark(self, st):
        for k in [k for k in st.flags if k[0] == 'n']:
            del st.flags[k]


class Applied(Marked):
    """applyInferenceRule: lines, names and contents of the commands of a rule, expanded for the target."""
    R = 'C28.rule'

    def __init__(self, prog, rep):
        Marked.__init__(self, prog, rep)
        self.backs = {}      # (fn, lid) -> {marks: (fr, node, st)}
        self.leave = {}

    def leaf(self, st, t):
        f = field_of(t)
        return st.flags.get(('fld', f), (0, 0))[0] if f else 0

    def state(self, st, t):
        t = strip_old(t)
        f = field_of(t)
        if f:
            return (f,) + st.flags.get(('fld', f), (0, 0))
        for k in (('val', t),):
            if k in st.flags:
                return st.flags[k]
        if t[0] in ('m', 'r'):
            return None
        return None

    def macro(self, t):
        return any(x[0] == 'g' and x[1].endswith('fileNameMacroMagicEscape') for x in subterms(t)) and any(x in (('c', 60), ('s', '<')) for x in subterms(t))

    def call(self, eng, st, fr, node, ci):
        n = short(ci.short)
        st.flags.pop(('new',), None)
        Marked.call(self, eng, st, fr, node, ci)
        if n == 'expandMacros' and ci.args:
            s = self.state(st, ci.args[0])
            if s is not None:
                st.flags[('new',)] = (s[0], s[1] + 1, s[2])
        elif n == 'replace' and ci.recv is not None and len(ci.args) >= 2:
            s = self.state(st, rloc(ci)) or self.state(st, ci.recv)
            if s is not None:
                ok = self.macro(ci.args[0])
                self.rep.check(ok, self.R, fr, node, 'the macro $< is replaced', 'something else than the macro for the inferred dependent is replaced in what a rule is made of', st)
                self.rep.check(s[1] >= 1, self.R, fr, node, 'the macro $< is replaced after the expansion', '$< is replaced before the text is expanded: it has not been marked yet, and stays', st)
                v = strip_old(ci.args[1])
                single = resname(v) == 'inferredDependent'
                good = single if not self.batch else not single and (('all',) in st.flags or ('some',) not in st.flags)
                self.rep.check(good, self.R, fr, node, 'the macro $< stands for the inferred dependents', '$< is replaced by something else than the inferred dependent, or than all those of the batch', st)
                st.flags[('new',)] = (s[0], s[1], s[2] + 1)
        elif n == 'evaluateModifiers':
            l = st.flags.get(('fld', LINE), (0, 0))
            self.rep.check(l[0] == 1, self.R, fr, node, 'the modifiers of the expanded line are evaluated', 'the modifiers are looked for before the line is expanded: those that come from macros stay in the line', st)
            st.flags[('mods',)] = st.flags.get(('mods',), 0) + 1
        elif ci.recv is not None and (n in GROW or n == 'operator+=') and ci.args and fieldname(rloc(ci)) != 'm_dependents' and \
                any(resname(x) == 'inferredDependent' for x in subterms(ci.args[-1])):
            st.flags[('listed',)] = 1

    def after(self, eng, st, fr, node, ci, res):
        s = st.flags.pop(('new',), None)
        Marked.after(self, eng, st, fr, node, ci, res)
        if s is None:
            return
        if short(ci.short) == 'expandMacros' or isinstance(res, tuple) and res and res[0] == 'r':
            st.flags[('val', strip_old(res))] = s
        if short(ci.short) == 'expandMacros':
            return
        if ci.rloc is not None:
            f = field_of(ci.rloc)
            if f:
                st.flags[('fld', f)] = s[1:]
            t = eng.read(st, ci.rloc)
            if t is not None:
                st.flags[('val', strip_old(t))] = s

    def write(self, eng, st, fr, node, loc, val, op):
        f = field_of(loc)
        if f is None or val is None:
            return
        s = self.state(st, val)
        self.rep.check(s is not None and s[0] == f, self.R, fr, node, 'the expanded text takes its own place (%s)' % f.split('_')[-1], 'a text of a rule is replaced by something else than itself expanded', st)
        if s is not None:
            st.flags[('fld', f)] = s[1:]

    def elem(self, eng, st, fr, node, elem):
        e = strip_old(elem)
        if self.batch and e[0] == 'elem' and strip_old(e[1])[0] == 'p' and e[2] != ('s', 'first'):
            st.flags[('some',)] = 1
            self.rep.check(('cmds',) not in st.flags, self.R, fr, node, 'the batch is put together first', 'the inferred dependents of a batch are put together after $< has been replaced', st)

    def clean(self, st):
        for k in [k for k in st.flags if k[0] in ('n', 'val')]:
            del st.flags[k]

    def marks(self, st):
        return tuple(sorted((k[-1], v) for k, v in st.flags.items() if k[0] == 'fld')) + \
            tuple(sorted((k[0], st.flags[k]) for k in st.flags if k in (('mods',), ('files',), ('listed',))))

    def loop(self, eng, st, fr, node, what, lid):
        key = (fr.fn.key, lid)
        if what == 'iter':
            st.flags[('in', fr.id, lid)] = self.marks(st)
            return
        for k in [k for k in st.flags if k[0] == 'in' and k[1] == fr.id and k[2] != lid and self.within(fr.fn, k[2], lid)]:
            self.leave[(fr.fn.key, k[2])] = (fr, node, st)
            st.flags.pop(k)
        before = st.flags.pop(('in', fr.id, lid), ())
        marks = tuple(m for m in self.marks(st) if m not in before)
        self.backs.setdefault(key, {}).setdefault(marks, (fr, node, st))
        names = {m[0] for m in marks}
        if names & {NAME, TEXT}:
            st.flags[('files',)] = 1
            for f in (NAME, TEXT):
                st.flags.pop(('fld', f), None)
        if LINE in names:
            for k in (('fld', LINE), ('mods',), ('files',)):
                st.flags.pop(k, None)
            st.flags[('cmds',)] = 1
        if st.flags.pop(('listed',), None):
            st.flags[('all',)] = 1
        self.clean(st)
        soft(st)

    def within(self, fn, lid, outer):
        while lid is not None:
            if lid == outer:
                return True
            lid = fn.cfg.loops[lid].parent
        return False

    def exit(self, eng, st, fr, node, kind, val):
        if kind == 'ret':
            for k in [k for k in st.flags if k[0] == 'in' and k[1] == fr.id]:
                self.leave[(fr.fn.key, k[2])] = (fr, node, st)
                st.flags.pop(k)

    def finish(self, fn):
        seen = set()
        ck = lambda c, fr, node, key, msg, st: self.rep.check(c, self.R, fr, node, key, msg, st)
        for (k, lid), got in self.backs.items():
            names = {m[0] for ms in got for m in ms}
            if not names & {LINE, NAME, TEXT, 'listed'}:
                continue
            seen |= names
            loop = None
            for ms, (fr, node, st) in got.items():
                loop = fr.fn.cfg.loops[lid]
                d = dict(ms)
                if LINE in names:
                    ck(d.get(LINE) == (1, 1), fr, node, 'the line of every command is expanded once, and $< replaced', 'the line of a command of a rule is not expanded exactly once, or $< stays in it', st)
                    ck(d.get('mods') == 1, fr, node, 'the modifiers of every command are evaluated', 'the modifiers of a command of a rule are not evaluated', st)
                elif names & {NAME, TEXT}:
                    for f in (NAME, TEXT):
                        ck(d.get(f) == (1, 1), fr, node, 'name and content of every inline file are expanded once, and $< replaced (%s)' % f.split('_')[-1],
                           'the %s of an inline file of a rule is not expanded exactly once, or $< stays in it' % f.split('_')[-1], st)
                else:
                    ck('listed' in d, fr, node, 'every target of a batch adds its dependent to $<', 'an inferred dependent of a batch is missing in $<', st)
                ok, why = loop_complete(loop)
                ck(ok, fr, node, 'no command, inline file and target is left out', 'a part of the commands of a rule stays unexpanded: ' + why, st)
        for (k, lid), (fr, node, st) in self.leave.items():
            got = self.backs.get((k, lid))
            ck(bool(got) and not {m[0] for ms in got for m in ms} & {LINE, NAME, TEXT, 'listed'}, fr, None, 'no loop is left early', 'the loop over what a rule is made of is left early', st)
        if self.batch and 'listed' not in seen:
            self.rep.bad(self.R, fn.short, fn.line, 'dependents of a batch', 'the inferred dependents of a batch are not put together', None, file=fn.file)
        for f in FIELDS:
            if f not in seen:
                self.rep.bad(self.R, fn.short, fn.line, 'expanded ' + f.split('_')[-1], 'the %s of what a rule is made of is not expanded' % f.split('_')[-1], None, file=fn.file)


class Block(Marked):
    """parseCommandLine and parseInlineFiles: expanded at once in description blocks, left alone in rules."""
    R = 'C28.block'

    def __init__(self, prog, rep, flag):
        Marked.__init__(self, prog, rep)
        self.flag = flag

    def is_flag(self, t):
        t = strip_old(t)
        return t[0] == 'p' and t[2] == self.flag

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        if self.is_flag(x):
            st.flags[('rule',)] = v

    def want(self, st):
        v = st.flags.get(('rule',))
        return None if v is None else 0 if v else 1


class CommandLine(Block):
    def source(self, t):
        return any(x[0] == 'p' and x[2] == self.par for x in subterms(t))

    def call(self, eng, st, fr, node, ci):
        Marked.call(self, eng, st, fr, node, ci)
        n = short(ci.short)
        if n == 'evaluateModifiers':
            self.rep.check(st.flags.get(('rule',)) is False and st.flags.get(('line',)) == 1, self.R, fr, node, 'modifiers of expanded lines only', 'the modifiers are looked for in a line that is not expanded', st)
            st.flags[('mods',)] = 1
        if n == 'parseInlineFiles':
            self.rep.check(len(ci.args) == 2 and (self.is_flag(ci.args[1]) or ci.args[1] == ('c', 0 if self.want(st) else 1) and self.want(st) is not None), self.R, fr, node,
                           'inline files are read as their command is', 'the inline files of a command of a description block are read as those of a rule, or the other way round', st)
            self.done(st, fr, node)
            st.flags[('files',)] = 1

    def expands(self, eng, st, fr, node, ci):
        self.rep.check(st.flags.get(('rule',)) is False, self.R, fr, node, 'only lines of description blocks', 'a command line of an inference rule is expanded when it is read, and once more when the rule is applied', st)

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(strip_old(loc), LINE) and val is not None:
            st.flags[('line',)] = self.times(st, val)
            st.flags[('src',)] = 1

    def done(self, st, fr, node):
        g = st.flags.get
        self.rep.check(g(('line',)) == self.want(st) and self.want(st) is not None, self.R, fr, node, 'the line of a command', 'the line of a command of a description block is not expanded, or that of a rule is', st)
        self.rep.check((('mods',) in st.flags) == (g(('rule',)) is False), self.R, fr, node, 'the modifiers of a command', 'the modifiers of a command of a description block are not evaluated before its inline files are read', st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            self.rep.check(('files',) in st.flags, self.R, fr, node, 'the inline files of a command', 'the inline files of a command are not read', st)


class Contents(Block):
    """parseInlineFiles"""

    def leaf(self, st, t):
        return 0

    def expands(self, eng, st, fr, node, ci):
        self.rep.check(is_field(strip_old(ci.args[0]), MLINE) and st.flags.get(('rule',)) is False, self.R, fr, node, 'the content of inline files is expanded',
                       'something is expanded that is no line of an inline file of a description block: names stem from the command line, which is expanded; rules are expanded when they are applied', st)

    def call(self, eng, st, fr, node, ci):
        Marked.call(self, eng, st, fr, node, ci)
        if grow_call(ci, TEXT) or ci.recv is not None and short(ci.short) == 'operator+=' and is_field(strip_old(rloc(ci)), TEXT):
            n = self.times(st, ci.args[-1])
            if strip_old(ci.args[-1])[0] in ('s', 'c'):
                return
            self.rep.check(n == self.want(st), self.R, fr, node, 'each line of an inline file', 'a line of an inline file of a description block is not expanded, or that of a rule is', st)
            self.seen = True

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(strip_old(loc), TEXT) and val is not None:
            n = self.times(st, val)
            self.rep.check(n == self.want(st), self.R, fr, node, 'each line of an inline file', 'a line of an inline file of a description block is not expanded, or that of a rule is', st)
            self.seen = True

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'back':
            self.unmark(st)
            st.flags.pop(('rule',), None)
            soft(st)

    seen = False


class Passed(Marked):
    """parseCommand and parseDescriptionBlock hand on lines as they were read."""
    R = 'C28.block'

    def __init__(self, prog, rep, flag):
        Marked.__init__(self, prog, rep)
        self.flag = flag        # name of the parameter, or the constant
        self.n = 0

    def expands(self, eng, st, fr, node, ci):
        if self.block:
            self.rep.check(mentions_field(ci.args[0], MLINE) or True, self.R, fr, node, 'targets and dependents', '', st)
        else:
            self.rep.bad(self.R, fr.fn.short, node.line, 'expanded too early', 'a line is expanded before it is known whether it is one of a rule', st, file=fr.fn.file)

    block = False

    def call(self, eng, st, fr, node, ci):
        Marked.call(self, eng, st, fr, node, ci)
        n = short(ci.short)
        if n in ('parseCommandLine', 'parseCommand'):
            self.n += 1
            a = strip_old(ci.args[-1])
            ok = a == self.flag if self.block else a[0] == 'p' and a[2] == self.flag
            self.rep.check(ok, self.R, fr, node, 'commands are read as those of a block or of a rule', 'the commands of a description block are read as those of a rule, or the other way round', st)
        if n == 'parseCommandLine':
            self.rep.check(self.times(st, ci.args[0]) == 0, self.R, fr, node, 'a command line is handed on unexpanded', 'a command line is expanded before it is handed on, and then once more', st)
        if n == 'splitTargetNames':
            self.rep.check(self.times(st, ci.args[0]) == 1, self.R, fr, node, 'targets and dependents are expanded', 'the names of targets or dependents are not expanded before they are split', st)
            self.n += 1

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'back' and fr.parent is None:
            soft(st)


class Directive(Marked):
    """parsePreprocessingDirective: the line is expanded first, and nothing of it again."""
    R = 'C28.directive'

    def expands(self, eng, st, fr, node, ci):
        root = fr
        while root.parent is not None:
            root = root.parent
        a = strip_old(ci.args[0])
        self.rep.check(a[0] == 'p' and a[2] == self.par, self.R, fr, node, 'the line of a directive is expanded', 'something else than the whole line of a directive is expanded', st)

    def call(self, eng, st, fr, node, ci):
        Marked.call(self, eng, st, fr, node, ci)
        n = short(ci.short)
        if n == 'isPreprocessingDirective':
            self.rep.check(self.times(st, ci.args[0]) == 1, self.R, fr, node, 'directives are recognised in the expanded line', 'the line of a directive is not expanded before it is taken apart', st)
            self.seen = True
    seen = False


def callees(prog, fn):
    """The known functions called by a function, or by helpers extracted from it."""
    todo, seen, out = [fn], set(), set()
    while todo:
        f = todo.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        for n in f.cfg.nodes:
            if n.op in ('call', 'new'):
                for e in (n.b, n.b.get('i') if isinstance(n.b.get('i'), dict) else None):
                    if e is None:
                        continue
                    for t in prog.targets(e):
                        g = prog.funcs.get(t) if isinstance(t, str) else t
                        if g is None:
                            continue
                        if g.name in FUNCTIONS:
                            out.add(g)
                        else:
                            todo.append(g)
    return out


def constant(e):
    """Is the first argument of a call a text that stands in the source?"""
    a = (e.get('a') or [None])[0]
    kinds = {x.get('k') for x in walk(a)} if a is not None else {'?'}
    return 'str' in kinds and not kinds & {'var', 'mem', 'member', 'field', 'call', 'tmp', 'this', '?'}


def no_expansion(prog, rep, rule, names, cut=()):
    """From the named functions no expansion can be reached."""
    goal = {f.key for f in prog.fns('MacroTable::expandMacros')}
    funcs = {f.key: f for f in prog.funcs.values()}
    for nm in names:
        for root in (prog.fns(nm) if isinstance(nm, str) else [nm]):
            todo, seen, hit = [root.key], {root.key}, None
            while todo and hit is None:
                k = todo.pop()
                f = funcs.get(k)
                if f is None:
                    continue
                for n in f.cfg.nodes:
                    if n.op not in ('call', 'new'):
                        continue
                    for e in (n.b, n.b.get('i') if isinstance(n.b.get('i'), dict) else None):
                        if e is None:
                            continue
                        for t in prog.targets(e):
                            t = t if isinstance(t, str) else t.key
                            g = funcs.get(t)
                            if t in goal:
                                if not constant(e):
                                    hit = (f, n)
                            elif g is not None and g.name not in cut and g.short not in cut and t not in seen:
                                seen.add(t)
                                todo.append(t)
            if hit:
                rep.bad(rule, hit[0].short, hit[1].line, 'expansion reached from ' + root.short, 'text that is expanded already, or that is skipped, is expanded here', None, file=hit[0].file)
            else:
                rep.ok(rule, (root.short, root.line, 'no expansion'))


class Start(Rule):
    """CommandExecutor::start: the commands are kept before their file name macros are expanded."""
    R = 'C28.names'

    def call(self, eng, st, fr, node, ci):
        n = short(ci.short)
        ck = lambda c, k, m: self.rep.check(c, self.R, fr, node, k, m, st)
        if n == 'expandFileNameMacros':
            ck(st.flags.get(('kept',)) == 1, 'kept before the expansion', 'the file name macros of commands are expanded, and the commands with the macros are not kept', )
            ck(('exp',) not in st.flags, 'expanded once', 'the file name macros of a command are expanded twice')
            st.flags[('exp',)] = 1
        if n in ('createTempFiles', 'executeCurrentCommandLine'):
            ck(('exp',) in st.flags, 'expanded before ' + n, 'inline files are written, or commands run, before their file name macros are expanded')
        if n == 'finishExecution':
            ck(st.flags.get(('kept',)) == 1, 'kept before the end', 'the execution ends and puts commands back that are not those of the target')

    def write(self, eng, st, fr, node, loc, val, op):
        l = strip_old(loc)
        if is_field(l, 'CommandExecutor::m_originalCommands'):
            ok = val is not None and is_field(strip_old(val), COMMANDS) and ('exp',) not in st.flags
            self.rep.check(ok, self.R, fr, node, 'the commands as they were read are kept', 'what is kept are not the commands of the target before the expansion', st)
            st.flags[('kept',)] = 1 if ok else 0

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            self.rep.check(('exp',) in st.flags or ('fin',) in st.flags, self.R, fr, node, 'expanded at every start', 'commands are executed without expansion of their file name macros', st)

    def after(self, eng, st, fr, node, ci, res):
        if short(ci.short) == 'finishExecution':
            st.flags[('fin',)] = 1


class Finish(Rule):
    """finishExecution: the commands are put back before anybody hears of the end."""
    R = 'C28.names'

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(strip_old(loc), COMMANDS):
            ok = val is not None and is_field(strip_old(val), 'CommandExecutor::m_originalCommands')
            self.rep.check(ok, self.R, fr, node, 'the kept commands are put back', 'other commands than those kept are put back', st)
            st.flags[('back',)] = 1 if ok else 0

    def call(self, eng, st, fr, node, ci):
        if ci.signal:
            self.rep.check(st.flags.get(('back',)) == 1, self.R, fr, node, 'put back before the end is announced', 'the end of a target is announced before its commands are put back: for the next requested target it would run those made for this one', st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            self.rep.check(st.flags.get(('back',)) == 1, self.R, fr, node, 'put back at every end', 'the commands of a target keep the values of the file name macros of this execution', st)


class Copy(EachRule):
    """A copy constructor copies every member, and what a list of pointers points to."""
    R = EACH = 'C28.copy'

    def each_want(self, e):
        return is_field(strip_old(e[1]), FILES) and strip_old(strip_old(e[1])[1])[0] == 'p'

    def write(self, eng, st, fr, node, loc, val, op):
        l = strip_old(loc)
        if l[0] != 'f' or strip_old(l[1]) != ('this',) or val is None:
            return
        v = strip_old(val)
        name = l[2]
        if v[0] == 'f' and v[2] == name and v[1][0] == 'p':
            self.rep.check(name != F(FILES), self.R, fr, node, 'inline files are not shared', 'a copied command shares its inline files with the original: both destroy them', st)
            st.flags[('w', name)] = 1
        elif ('w', name) in st.flags or v[0] not in ('dflt', 'obj'):
            self.rep.bad(self.R, fr.fn.short, node.line, 'other value of ' + name.split('::')[-1], 'a copy gets another value of %s' % name.split('::')[-1], st, file=fr.fn.file)

    def call(self, eng, st, fr, node, ci):
        if self.cls.endswith('Command') and grow_call(ci, FILES):
            a = strip_old(ci.args[-1])
            cur = self.each_current(st)
            ok = a[0] == 'new' and any(x in cur for x in [strip_old(y) for y in st.flags.get(('made',), ())])
            self.rep.check(ok, self.R, fr, node, 'inline files are copied', 'the inline files of a copied command are not copies of those of the original', st)
            st.flags[('one',)] = 1
        if ci.ctor and ci.name.endswith('InlineFile::InlineFile') and ci.args:
            a = strip_old(ci.args[0])
            st.flags[('made',)] = (a[1] if a[0] == 'd' else a,)

    def each_done(self, eng, st, fr, node, elem):
        self.rep.check(('one',) in st.flags, self.R, fr, node, 'every inline file is copied', 'an inline file is not copied', st)
        st.flags.pop(('one',), None)
        st.flags.pop(('made',), None)
        self.looped = True
    looped = False

    def exit(self, eng, st, fr, node, kind, val):
        EachRule.exit(self, eng, st, fr, node, kind, val)
        if fr.parent is not None or kind != 'ret':
            return
        for f in self.fields:
            if f == F(FILES):
                continue
            k = f.split('::')[-1]
            self.rep.check(('w', f) in st.flags, self.R, fr, node, k + ' is copied', '%s is not copied' % k, st)


@check('C28')
def c28(prog, rep):
    rep.rule('C28.rule', 'When an inference rule is applied, the line of each of its commands and the name and content of each of their inline files is expanded exactly once, then $< is replaced; the modifiers are evaluated in the expanded line.')
    rep.rule('C28.block', 'Command lines and inline files of description blocks are expanded exactly once when they are read, before the modifiers are evaluated; those of inference rules are kept unexpanded; targets and dependents are expanded once.')
    rep.rule('C28.directive', 'The line of a directive is expanded once, before it is taken apart; no part of it is expanded again; nothing is expanded while lines are skipped.')
    rep.rule('C28.names', 'The commands of a target are kept before their file name macros are expanded and put back when the execution ends, before the end is announced.')
    rep.rule('C28.copy', 'Commands are copied with all their members and with copies of their inline files; no command is assigned.')
    ap = prog.fns('Makefile::applyInferenceRule')
    if not ap:
        raise AnalysisError('Makefile::applyInferenceRule not found')
    for f in ap:
        mon = Applied(prog, rep)
        mon.batch = any('QList' in p.get('ts', p.get('t', '')) or 'QList' in str(p) for p in f.d['params'][:1])
        run_roots(prog, rep, mon, [f], noinline=('inferredDependent', 'expandMacros', 'evaluateModifiers', 'InferenceRule::inferredDependent', 'MacroTable::expandMacros', 'Command::evaluateModifiers'), limit=20)
        mon.finish(f)
    for f in prog.fns('Parser::parseCommandLine'):
        flag = f.d['params'][-1]['n']
        mon = CommandLine(prog, rep, flag)
        mon.par = f.d['params'][0]['n']
        run_roots(prog, rep, mon, [f], noinline=('Parser::parseInlineFiles', 'MacroTable::expandMacros', 'Command::evaluateModifiers'))
    for f in prog.fns('Parser::parseInlineFiles'):
        mon = Contents(prog, rep, f.d['params'][-1]['n'])
        run_roots(prog, rep, mon, [f], noinline=('Parser::readLine', 'MacroTable::expandMacros'), limit=20)
        if not mon.seen:
            rep.bad('C28.block', f.short, f.line, 'content of inline files', 'no line becomes content of an inline file', None, file=f.file)
    for f in prog.fns('Parser::parseCommand'):
        mon = Passed(prog, rep, f.d['params'][-1]['n'])
        run_roots(prog, rep, mon, [f], noinline=('Parser::readLine', 'MacroTable::expandMacros', 'Parser::parseCommandLine'))
    for f in prog.fns('Parser::parseDescriptionBlock'):
        mon = Passed(prog, rep, ('c', 0))
        mon.block = True
        run_roots(prog, rep, mon, [f], noinline=('Parser::readLine', 'MacroTable::expandMacros', 'Parser::parseCommandLine', 'Parser::parseCommand', 'Parser::extractSyncPoints', 'Parser::splitTargetNames',
                                                 'Parser::expandWildcards', 'Parser::createTarget', 'Makefile::target', 'DescriptionBlock::expandFileNameMacrosForDependents'), limit=12, small=0, heapkeep=())
    for f in prog.fns('Preprocessor::parsePreprocessingDirective'):
        mon = Directive(prog, rep)
        mon.par = f.d['params'][0]['n']
        run_roots(prog, rep, mon, [f], noinline=('MacroTable::expandMacros', 'Preprocessor::isPreprocessingDirective', 'Preprocessor::internalOpenFile', 'Preprocessor::findIncludeFile',
                                                 'Preprocessor::skipUntilNextMatchingConditional', 'Preprocessor::evaluateExpandedExpression', 'Preprocessor::error', 'MacroTable::undefineMacro', 'MacroTable::isMacroDefined'),
                  limit=20, small=0, heapkeep=())
        no_expansion(prog, rep, 'C28.directive', sorted((g for g in callees(prog, f) if g.short.split('::')[-1] != 'expandMacros'), key=lambda g: g.key))
        if not mon.seen:
            rep.bad('C28.directive', f.short, f.line, 'directives', 'lines are not looked at for directives', None, file=f.file)
    no_expansion(prog, rep, 'C28.directive', ['Preprocessor::evaluateExpandedExpression', 'Preprocessor::skipUntilNextMatchingConditional', 'Preprocessor::isPreprocessingDirective', 'Preprocessor::internalOpenFile',
                                              'MacroTable::isMacroDefined', 'MacroTable::undefineMacro', 'Preprocessor::readLine', 'Preprocessor::parseMacro'][:6])
    no_expansion(prog, rep, 'C28.block', ['Command::evaluateModifiers', 'Parser::splitTargetNames', 'Parser::extractSyncPoints'])
    no_expansion(prog, rep, 'C28.names', ['DescriptionBlock::expandFileNameMacros', 'DescriptionBlock::expandFileNameMacrosForDependents', 'CommandExecutor::executeCurrentCommandLine', 'CommandExecutor::createTempFiles'])
    for f in prog.fns('CommandExecutor::start'):
        run_roots(prog, rep, Start(prog, rep), [f], noinline=('DescriptionBlock::expandFileNameMacros', 'CommandExecutor::createTempFiles', 'CommandExecutor::executeCurrentCommandLine', 'CommandExecutor::finishExecution', 'CommandExecutor::cleanupTempFiles'))
    for f in prog.fns('CommandExecutor::finishExecution'):
        run_roots(prog, rep, Finish(prog, rep), [f], noinline=('CommandExecutor::cleanupTempFiles',))
    for cls in ('Command', 'InlineFile'):
        for f in prog.fns('%s::%s' % (cls, cls)):
            if len(f.d['params']) != 1:
                continue
            mon = Copy(prog, rep)
            mon.cls = f.cls
            mon.fields = [x['n'] if isinstance(x, dict) else x for x in prog.records[f.cls]['fields']]
            run_roots(prog, rep, mon, [f])
            if cls == 'Command' and not mon.looped:
                rep.bad('C28.copy', f.short, f.line, 'inline files', 'the inline files of a command are not copied', None, file=f.file)
    for f in prog.funcs.values():
        for n in f.cfg.nodes:
            if n.op == 'assign' and isinstance(n.a, dict) and n.a.get('ty', '').replace('const ', '').rstrip(' &') in ('Command', 'NMakeFile::Command'):
                rep.bad('C28.copy', f.short, n.line, 'assignment of a command', 'a command is assigned: it would share its inline files with the other, and both destroy them', None, file=f.file)
    rep.ok('C28.copy', ('all functions', 0, 'no command is assigned'))
    for r, n in (('C28.rule', 10), ('C28.block', 8), ('C28.directive', 3), ('C28.names', 4), ('C28.copy', 8)):
        rep.require(r, n)
