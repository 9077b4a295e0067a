"""C34: which file an include directive includes."""
from .common import *
from .registry import check
from .infer import Rule, EachRule, short, rloc, fieldname, soft, direction
from .blocks import Labels

STACK = 'Preprocessor::m_fileStack'
DIR = 'Preprocessor::TextFile::fileDirectory'
READER = 'Preprocessor::TextFile::reader'
PATHS = ('absoluteFilePath', 'canonicalFilePath', 'filePath')


def mention(t, name):
    return any(is_field(x, name) for x in [strip_old(t)] + [strip_old(x) for x in subterms(t)])


class Found(Labels):
    """Labels: N the name, D the directory of an open makefile, I the value of INCLUDE, S a slash."""
    par = None

    def labels(self, st, t, depth=0):
        if not isinstance(t, tuple) or not t or depth > 12:
            return frozenset()
        v = st.flags.get(('lab', t))
        if v is None:
            v = st.flags.get(('lab', strip_old(t)))
        if v is not None:
            return v
        t = strip_old(t)
        if t[0] == 'p' and t[2] == self.par:
            return frozenset('N') if ('cut',) not in st.flags else frozenset({'raw'})
        if is_field(t, DIR):
            return frozenset('D')
        if t[0] == 's':
            return frozenset('I') if 'INCLUDE' in t[1].upper() else frozenset()
        if t[0] == 'c':
            return frozenset()
        if t[0] in ('m', 'obj'):
            xs = [t[2]] + list(t[3]) if t[0] == 'm' else list(t[2:])
        elif t[0] in ('elem', 'size', 'd', 'iter'):
            xs = [t[1]]
        elif t[0] == 'op':
            xs = list(t[2:])
        else:
            return frozenset()
        s = set()
        for x in xs:
            if isinstance(x, tuple):
                if x and isinstance(x[0], tuple):
                    for y in x:
                        s |= self.labels(st, y, depth + 1)
                else:
                    s |= self.labels(st, x, depth + 1)
        if callname(t) in ('mid', 'chopped', 'left') and 'raw' in s:
            s = s - {'raw'} | {'N'}
        return frozenset(s)

    def part(self, st, ci):
        n = short(ci.short)
        if n in ('setFile',) and ci.args:
            return frozenset().union(*[self.labels(st, x) for x in ci.args])
        return None


class Search(Found):
    R = 'C34.search'
    VISIT = True

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.loops = {}         # (function, loop) -> kind
        self.throws = []        # loops reached, whether in angle brackets, ...
        self.probed = set()

    def ck(self, st, fr, node, c, key, msg):
        self.rep.check(c, self.R, fr, node, key, msg, st)

    def visit(self, eng, st, fr, node):
        if node.op in ('loophead', 'feinit'):
            st.flags[('at', fr.fn.key, node.loop)] = 1

    def call(self, eng, st, fr, node, ci):
        Labels.call(self, eng, st, fr, node, ci)
        n = short(ci.short)
        g = st.flags.get
        if n == 'error':
            self.ck(st, fr, node, g(('yes',)) is not True and g(('self',)) is False, 'errors', 'a file that exists cannot be included')
            at = {self.kind_of(k[1:]) for k in st.flags if k[0] == 'at'}
            self.ck(st, fr, node, 'parent' in at and 'parent' not in self.left(st), 'the makefiles are searched', 'the directories of the makefiles are not searched')
            if self.is_angle(st):
                self.ck(st, fr, node, 'include' in at and 'include' not in self.left(st), 'INCLUDE is searched', 'the directories of INCLUDE are not searched')
            return []       # it throws
        if n == 'expandMacros' and ci.args:
            self.ck(st, fr, node, ci.args[0] == ('s', '$(INCLUDE)'), 'the directories are those of INCLUDE', 'another macro than INCLUDE is expanded for the directories, or the name is expanded again')
            st.flags[('expanded',)] = 1
        if n == 'macroValue':
            self.ck(st, fr, node, False, 'macros in INCLUDE', 'macros in the value of INCLUDE are not expanded')
        if n in ('exists', 'isFile', 'isReadable'):
            t = ci.recv if ci.recv is not None else ci.args[0] if ci.args else None
            s = self.labels(st, t)
            kind = {frozenset('N'): 'self', frozenset('ND'): 'parent', frozenset('NI'): 'include'}.get(s)
            self.ck(st, fr, node, kind is not None, 'where is searched', 'a file is searched that is neither the one that is named, nor one of that name in a directory of a makefile or of INCLUDE')
            self.ck(st, fr, node, g(('yes',)) is not True, 'the first file that is found', 'the search goes on although a file was found')
            if kind in ('parent', 'include'):
                self.ck(st, fr, node, g(('self',)) is False, 'the name itself comes first', 'the name as it stands is not the first that is tried')
            if kind == 'include':
                self.ck(st, fr, node, g(('angle',)) is True, 'INCLUDE only for angle brackets', 'directories of INCLUDE are searched for a name that is not in angle brackets')
                self.ck(st, fr, node, any(k[0] == 'at' and self.kind_of(k[1:]) == 'parent' for k in st.flags) and 'parent' not in self.left(st), 'makefiles before INCLUDE', 'directories of INCLUDE are searched before those of the makefiles')
            if kind:
                self.probed.add(kind)
                st.flags[('now?',)] = kind
        if ci.recv is not None and n in ('chop', 'remove', 'chopped', 'mid') and self.labels(st, ci.recv) == {'N'}:
            what = 'angle' if g(('angle?', 60)) is True and g(('angle?', 62)) is True and ('quote',) not in st.flags and g(('q?', 34)) is not True else 'quote'
            ok = g(('angle',)) is True or g(('angle?', 60)) is True and g(('angle?', 62)) is True or g(('q?', 34)) is True
            self.ck(st, fr, node, ok, 'what belongs to the name', 'characters of a name are removed that are neither angle brackets nor quotes')
            st.flags[('cut',)] = 1

    pre = None

    def left(self, st):
        """Loops that were left early."""
        return {self.kind_of(k[1:]) for k in st.flags if k[0] == 'in'}

    def kind_of(self, k):
        return self.pre.get(tuple(k))

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        n = callname(x) or resname(x)
        null = x[2] if n == 'isNull' and x[0] == 'm' else x[1] if x[0] == 'size' else None
        if null is not None:
            if n != 'isNull':
                v = not v
            y = strip_old(null)
            if y[0] in ('obj', 'dflt') and len(y) <= 3 and not any(y[2:]):
                return v        # a string without text
            if (callname(y) or resname(y)) in PATHS:
                return not v
        if n in ('startsWith', 'endsWith') and x[0] == 'm' and x[3]:
            c = strip_old(x[3][0])
            c = ord(c[1]) if c[0] == 's' and len(c[1]) == 1 else c[1]
            if c in (60, 62) and self.labels(st, x[2]) == {'N'}:
                ok = (c == 60) == (n == 'startsWith')
                self.ck(st, fr, node, ok, 'angle brackets', 'angle brackets are looked for at the wrong end')
                st.flags[('angle?', c)] = v
            if c == 34:
                st.flags[('q?', 34)] = v
        elif n in ('exists', 'isFile', 'isReadable'):
            k = st.flags.get(('now?',))
            if k:
                if k == 'self':
                    st.flags[('self',)] = v
                if v:
                    st.flags[('yes',)] = True
                    st.flags[('kind',)] = k
                else:
                    st.flags[('no', k)] = True

    def write(self, eng, st, fr, node, loc, val, op):
        l = strip_old(loc)
        if val is not None and val == ('c', 1) and l[0] == 'loc':
            a = st.flags.get(('angle?', 60)) is True and st.flags.get(('angle?', 62)) is True
            if a:
                st.flags[('angle',)] = True

    def is_angle(self, st):
        return st.flags.get(('angle?', 60)) is True and st.flags.get(('angle?', 62)) is True

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'iter':
            st.flags.pop(('no', 'parent'), None)
            st.flags.pop(('no', 'include'), None)
            st.flags[('in', fr.fn.key, lid)] = 1
            return
        st.flags.pop(('in', fr.fn.key, lid), None)
        lp = fr.fn.cfg.loops[lid]
        k = self.pre.get((fr.fn.key, lid))
        if k is None:
            return
        self.loops[(fr.fn.key, lid)] = k
        self.ck(st, fr, node, ('no', k) in st.flags, 'every directory', 'a directory of %s is passed over' % ('the makefiles' if k == 'parent' else 'INCLUDE'))
        ok, why = loop_complete(lp)
        self.ck(st, fr, node, ok, 'all directories', 'not all directories are searched: ' + why)
        d = direction(lp, fr.fn, lid)
        if self.backwards(lp):
            d = 'down'
        self.ck(st, fr, node, d == ('down' if k == 'parent' else 'up'), 'order of the directories',
                'directories of the including makefiles are searched from the outermost one' if k == 'parent' else 'directories of INCLUDE are searched from the last one')
        soft(st)

    def backwards(self, lp):
        return any(isinstance(x, dict) and str(x.get('f', '')).rsplit('::', 1)[-1] in ('rbegin', 'crbegin') for e in (lp.init, lp.container) if e is not None for x in walk(e))

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None:
            return
        g = st.flags.get
        if kind == 'ret':
            # after an error nothing is returned
            ok = g(('yes',)) is True and val is not None and self.labels(st, val) == {'self': {'N'}, 'parent': {'N', 'D'}, 'include': {'N', 'I'}}.get(g(('kind',)))
            self.ck(st, fr, node, ok, 'the file that was found', 'what is included is not the file that was found')


class Open(Found):
    R = 'C34.open'
    VISIT = True

    def ck(self, st, fr, node, c, key, msg):
        self.rep.check(c, self.R, fr, node, key, msg, st)

    def visit(self, eng, st, fr, node):
        if node.op in ('loophead', 'feinit'):
            st.flags[('at', fr.fn.key, node.loop)] = 1

    def absolute(self, st, t):
        n = callname(strip_old(t)) or resname(strip_old(t))
        return n in ('absoluteFilePath', 'canonicalFilePath') and (self.labels(st, t) or frozenset('N')) == {'N'}

    def call(self, eng, st, fr, node, ci):
        Labels.call(self, eng, st, fr, node, ci)
        n = short(ci.short)
        g = st.flags.get
        if n == 'error':
            ok = g(('exists',)) is False or g(('open',)) is False or g(('same',)) is True
            self.ck(st, fr, node, ok, 'errors', 'a file that can be read and is no cycle cannot be included')
            return []       # it throws
        if n == 'MakefileLineReader' and ci.args:
            self.ck(st, fr, node, self.absolute(st, ci.args[0]), 'the reader has the absolute name', 'makefiles are not opened by their absolute names: cycles are not found')
            st.flags[('name',)] = strip_old(ci.args[0])
        if n == 'push' and is_field(strip_old(rloc(ci)), STACK) or n in GROW and ci.recv is not None and is_field(strip_old(rloc(ci)), STACK):
            self.ck(st, fr, node, ('push',) not in st.flags, 'a file is pushed once', 'an included file is pushed twice')
            self.ck(st, fr, node, any(k[0] == 'at' and k[1:] in self.cyc for k in st.flags), 'cycles are looked for first', 'a file is included without looking whether it includes this one')
            st.flags[('push',)] = 1
        if n == 'open':
            st.flags[('opened?',)] = 1

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        n = callname(x) or resname(x)
        if n == 'open':
            st.flags[('open',)] = v
        elif n in ('exists', 'isFile'):
            st.flags[('exists',)] = v
        elif x[0] == 'op' and x[1] == '==' and len(x) == 4:
            for a, b in ((x[2], x[3]), (x[3], x[2])):
                if callname(strip_old(a)) == 'fileName' and mention(a, READER):
                    self.ck(st, fr, node, self.absolute(st, b), 'absolute names are compared', 'names of makefiles are compared that are not absolute: a cycle is not found')
                    st.flags[('same',)] = v

    def write(self, eng, st, fr, node, loc, val, op):
        l = strip_old(loc)
        if val is None:
            return
        if is_field(l, DIR):
            n = callname(strip_old(val)) or resname(strip_old(val))
            ok = n in ('absolutePath', 'canonicalPath', 'path') and (self.labels(st, val) or frozenset('N')) == {'N'}
            self.ck(st, fr, node, ok, 'the directory of the file', 'the directory of another file, or another directory, is kept for the included file')
            st.flags[('dir',)] = 1
        if is_field(l, READER):
            self.ck(st, fr, node, strip_old(val)[0] in ('new', 'r', 'j') and val != ('c', 0), 'the reader of the file', 'another reader is kept for the included file')
            st.flags[('reader',)] = 1

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'iter':
            st.flags.pop(('same',), None)
            return
        if (fr.fn.key, lid) not in self.cyc:
            return
        self.ck(st, fr, node, st.flags.get(('same',)) is False, 'a cycle is an error', 'a makefile may include itself, or a file that includes it')
        ok, why = loop_complete(fr.fn.cfg.loops[lid])
        self.ck(st, fr, node, ok, 'every open makefile', 'a makefile may include one that includes it: ' + why)
        soft(st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        g = st.flags.get
        self.ck(st, fr, node, g(('open',)) is True, 'the file is open', 'a file that cannot be read is not an error')
        self.ck(st, fr, node, ('push',) in st.flags and ('reader',) in st.flags and ('dir',) in st.flags, 'the file is read next', 'the lines of the included file are not read, or its directory is not kept')


def stack_loops(prog, fns, lists=None):
    """Loops over the stack of makefiles -> 'parent', others with probes -> 'include'."""
    out = {}
    for f in fns:
        for lid, lp in f.cfg.loops.items() if isinstance(f.cfg.loops, dict) else enumerate(f.cfg.loops):
            es = [e for e in (lp.init, lp.cond, lp.container, lp.inc) if e is not None]
            names = {x.get('n') for e in es for x in walk(e)} | {str(x.get('f', '')) for e in es for x in walk(e)}
            inside = [x for n in f.cfg.nodes if n.loop == lid for e in (n.a, n.b) if isinstance(e, (dict, list)) for x in walk(e)]
            par = any('m_fileStack' in str(x.get('n', '')) + str(x.get('m', '')) for e in es for x in walk(e)) or any('m_fileStack' in str(x.get('n', '')) + str(x.get('m', '')) for x in inside)
            par = par or any('fileDirectory' in str(x.get('n', '')) + str(x.get('m', '')) for x in inside)
            out[(f.key, lid)] = 'parent' if par else 'include'
    return out


@check('C34')
def c34(prog, rep):
    rep.rule('C34.search', 'The file that is included is the first that exists of: the name itself, the name in the directories of the open makefiles from the innermost one, and, in angle brackets, in the directories of INCLUDE in their order; else it is an error.')
    rep.rule('C34.open', 'An included file is opened by its absolute name after comparing it with all open makefiles (a cycle is an error) and is read next, with its own directory.')
    def around(f):
        return [f] + [g for e in prog.call_exprs(f) for t in prog.targets(e) for g in [prog.funcs.get(t) if isinstance(t, str) else t] if g is not None and g.file == f.file]
    for f in prog.fns('Preprocessor::findIncludeFile'):
        mon = Search(prog, rep)
        mon.par = f.d['params'][0]['n']
        mon.pre = stack_loops(prog, around(f))
        run_roots(prog, rep, mon, [f], inline=('removeDoubleQuotes',), noinline=('Preprocessor::error', 'MacroTable::expandMacros'), limit=100, small=0)
        for k in ('self', 'parent', 'include'):
            if k not in mon.probed:
                rep.bad('C34.search', f.short, f.line, 'places', {'self': 'the name itself is not tried', 'parent': 'the directories of the makefiles are not searched', 'include': 'the directories of INCLUDE are not searched'}[k], None, file=f.file)
    for f in prog.fns('Preprocessor::internalOpenFile'):
        mon = Open(prog, rep)
        mon.par = f.d['params'][0]['n']
        mon.cyc = {k for k, v in stack_loops(prog, around(f)).items() if v == 'parent'}
        run_roots(prog, rep, mon, [f], noinline=('Preprocessor::error',), limit=60, small=0)
    for r, n in (('C34.search', 5), ('C34.open', 4)):
        rep.require(r, n)
