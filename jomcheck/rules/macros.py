"""C25: precedence of macro definitions."""
from .common import *
from .registry import check
from .executor import cur
from .graph import enum_value

MT = NS + 'MacroTable::'
MD = MT + 'MacroData::'


def macro_field(t):
    """value, source or isReadOnly, if the term is this field of a macro."""
    t = strip_old(t)
    if t[0] == 'f' and t[2].startswith(MD):
        return t[2].split('::')[-1]
    return None


class Define(Rule):
    """One of the functions that define a macro."""

    def __init__(self, prog, rep, kind):
        Rule.__init__(self, prog, rep)
        self.kind = kind
        self.E = {n: enum_value(prog, n) for n in ('CommandLine', 'CommandLineImplicit', 'MakeFile', 'Environment', 'Predefinition')}

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.par = [('p', fr.fn.key, p['n']) for p in fr.fn.d['params']]

    def branch(self, eng, st, fr, node, term, truth):
        t, v = strip_old(term), truth
        while t[0] == 'op' and t[1] == '!':
            t, v = t[2], not v
        f = macro_field(t)
        if f == 'isReadOnly':
            st.flags[('ro',)] = int(v)
        if t[0] == 'op' and t[1] == '==':
            a, b = (t[2], t[3]) if t[2][0] == 'c' else (t[3], t[2])
            if a[0] == 'c' and macro_field(b) == 'source':
                if v:
                    st.flags[('is',)] = a[1]
                else:
                    st.flags[('isnot', a[1])] = 1
        if macro_field(t) == 'source':      # compared with 0
            st.flags[('isnot', 0) if v else ('is',)] = 1 if v else 0
        if callname(t) == 'contains' and is_field(t[2], 'MacroTable::m_macros') or resname(t) == 'isMacroDefined':
            st.flags[('has',)] = int(v)
        if resname(t) == 'isMacroNameValid':
            st.flags[('valid',)] = int(v)

    def write(self, eng, st, fr, node, loc, val, op):
        l = strip_old(loc)
        f = macro_field(l)
        if f == 'value':
            self.value(st, fr, node, val)
        elif f == 'source':
            c = val if val is not None else ('none',)
            v = st.vs(c)
            st.flags[('src',)] = c[1] if c[0] == 'c' else -1
        elif f == 'isReadOnly':
            t = st.truth(val) if val is not None else None
            st.flags[('rw',)] = int(t) if t is not None else 'p' if val in self.par else '?'
        elif l[0] == 'elem' and is_field(l[1], 'MacroTable::m_environment'):
            self.export(st, l[2] if len(l) > 2 else ('none',), val)

    def export(self, st, k, val):
        st.flags[('env',)] = self.what(val)
        st.flags[('envname',)] = 'up' if any(callname(x) == 'toUpper' for x in subterms(k)) else 'x' if any(resname(x) == 'expandMacros' for x in subterms(k)) \
            else 'p' if any(x == self.par[0] for x in subterms(k)) else '?'

    def what(self, val):
        if val is None:
            return '?'
        if any(resname(x) == 'expandMacros' for x in subterms(val)):
            return 'x'
        return 'raw'

    def value(self, st, fr, node, val):
        k = self.kind
        if k not in ('cmd', 'impl'):
            self.rep.check(st.flags.get(('ro',)) == 0 or st.flags.get(('has',)) == 0, 'C25.readonly', fr, node,
                           'the value of a macro is only replaced if it is not read-only (%s)' % k,
                           'the value of a macro that is read-only may be replaced', st)
        self.rep.check(st.flags.get(('valid',)) == 1, 'C25.name', fr, node, 'only macros with a valid name are defined (%s)' % k,
                       'a macro may be defined under an invalid name', st)
        self.rep.check(val is not None and resname(strip_old(val)) != 'expandMacros', 'C25.raw', fr, node, 'a macro keeps its value unexpanded (%s)' % k,
                       'macros in the value of a macro are expanded when it is defined', st)
        self.rep.check(('self',) in st.flags, 'C25.self', fr, node, 'the old value is put in where the new one mentions the macro (%s)' % k,
                       'a macro that mentions itself in its new value does not get its old value there', st)
        st.flags[('val',)] = 1

    def call(self, eng, st, fr, node, ci):
        if ci.short in ('operator[]', 'insert') and is_container(ci, 'MacroTable::m_macros') and ci.short == 'insert':
            self.value(st, fr, node, ci.args[1] if len(ci.args) > 1 else None)
        if ci.short in ('insert',) and is_container(ci, 'MacroTable::m_environment') and len(ci.args) > 1:
            self.export(st, ci.args[0], ci.args[1])
        if ci.short in ('indexOf', 'replace') and ci.args and any(x[0] == 's' and x[1].startswith('$(') for x in subterms(ci.args[0])):
            st.flags[('self',)] = 1
        if ci.short in ('remove', 'clear', 'take', 'erase') and is_container(ci, 'MacroTable::m_macros'):
            self.rep.check(False, 'C25.kept', fr, node, 'defining a macro removes none', 'defining a macro removes another one', st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        g = st.flags.get
        k = self.kind
        E = self.E
        ck = lambda c, rule, key, msg: self.rep.check(c, rule, fr, node, key, msg, st)
        wrote = ('val',) in st.flags
        if k in ('cmd', 'impl'):
            if g(('valid',)) == 1:
                ck(wrote, 'C25.source', 'a macro of the command line gets its value (%s)' % k, 'a macro of the command line does not get its value')
            if wrote:
                ck(g(('src',)) == (E['CommandLine'] if k == 'cmd' else E['CommandLineImplicit']), 'C25.source', 'it is marked as one of the command line (%s)' % k,
                   'a macro of the command line is not marked as such')
                ck(g(('rw',)) == 1, 'C25.readonly', 'a macro of the command line is read-only (%s)' % k, 'the makefile can redefine a macro of the command line')
                ck(g(('env',)) == 'x', 'C25.environment', 'a macro of the command line is exported (%s)' % k, 'the environment does not get the (expanded) macro of the command line')
        elif k == 'env':
            has = g(('has',))
            if has == 1:
                ck(not wrote and ('rw',) not in st.flags, 'C25.precedence', 'a macro that exists is not replaced by a variable of the environment',
                   'a macro that exists is replaced by a variable of the environment')
                if g(('is',)) == E['CommandLine']:
                    ck(g(('env',)) == 'x', 'C25.environment', 'a macro of the command line is exported', 'the environment does not get the macro of the command line')
                elif ('env',) in st.flags:
                    ck(False, 'C25.environment', 'other macros do not change the environment', 'a macro that does not come from the environment changes it')
            elif wrote:
                ck(has == 0, 'C25.precedence', 'a macro that exists is not replaced by a variable of the environment',
                   'a variable of the environment is taken without looking whether the macro exists')
                ck(g(('src',)) == E['Environment'], 'C25.source', 'a macro of the environment is marked as such', 'a macro of the environment is not marked as such')
                ck(g(('rw',)) == 'p', 'C25.readonly', 'whether macros of the environment are read-only is decided by the caller',
                   'the caller does not decide whether a macro of the environment is read-only')
                ck(g(('env',)) == 'x' and g(('envname',)) in ('up', 'x'), 'C25.environment', 'the environment gets the expanded value', 'the environment does not get the expanded value under the name of the macro')
        elif k == 'make':
            ck(wrote or g(('ro',)) == 1, 'C25.source', 'a macro of the makefile gets its value', 'a macro of the makefile does not get its value')
            ck(('rw',) not in st.flags, 'C25.readonly', 'the makefile makes no macro read-only', 'a definition in the makefile changes whether a macro is read-only')
            if g(('is',)) == E['Environment']:
                ck(g(('env',)) == 'x' and g(('envname',)) == 'x', 'C25.environment', 'redefining a macro of the environment changes the environment',
                   'the environment does not get the new value of a macro that came from it')
                ck(('src',) not in st.flags or g(('src',)) == E['Environment'], 'C25.source', 'it stays a macro of the environment', 'a macro of the environment is not regarded as one any more')
            else:
                ck(('isnot', E['Environment']) in st.flags, 'C25.environment', 'redefining a macro of the environment changes the environment',
                   'a macro is redefined without looking whether it came from the environment')
                ck(('env',) not in st.flags, 'C25.environment', 'other macros do not change the environment', 'a macro that does not come from the environment changes it')
        elif k == 'pre':
            if g(('has',)) == 1:
                ck(not wrote and ('src',) not in st.flags, 'C25.precedence', 'a predefined macro does not replace one that exists', 'a predefined macro replaces one that exists')
            else:
                ck(g(('has',)) == 0, 'C25.precedence', 'a predefined macro does not replace one that exists', 'a macro is predefined without looking whether it exists')
                ck(wrote or g(('ro',)) == 1, 'C25.source', 'a predefined macro gets its value', 'a predefined macro does not get its value')


class Order(Rule):
    """MakefileFactory::apply: command line, environment, predefined macros, makefile."""
    STEP = {'Options::readCommandLineArguments': 'cmd', 'MacroTable::defineEnvironmentMacroValue': 'env', 'MacroTable::predefineValue': 'pre',
            'Preprocessor::openFile': 'make', 'Parser::apply': 'make', 'MacroTable::setEnvironment': 'start'}

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.hit = set()

    def call(self, eng, st, fr, node, ci):
        s = None
        for n, x in self.STEP.items():
            if ci.has(n):
                s = x
        if s is None:
            return
        self.hit.add(s)
        ck = lambda c, key, msg: self.rep.check(c, 'C25.order', fr, node, key, msg, st)
        has = lambda x: ('s', x) in st.flags
        if s == 'cmd':
            ck(not has('env') and not has('pre'), 'the command line is read first', 'macros are defined before those of the command line')
            ck(has('start'), 'the environment is known before macros change it', 'macros of the command line are exported before the environment is set: it replaces them')
        elif s == 'env':
            ck(has('cmd'), 'the environment follows the command line', 'macros of the environment are defined before those of the command line')
            ck(not has('pre'), 'the environment precedes the predefined macros', 'predefined macros take precedence over the environment')
            ck(not has('make'), 'the environment precedes the makefile', 'macros of the environment are defined after the makefile was opened')
            if fr.parent is not None or True:
                a = ci.args[2] if len(ci.args) > 2 else ('none',)
                ck(is_field(a, 'Options::overrideEnvVarMacros'), 'macros of the environment are read-only with /E',
                   'whether macros of the environment are read-only does not depend on /E')
            f, lid = loopctx(fr, node)
            ok, why = loop_complete(f.fn.cfg.loops[lid]) if f is not None else (False, 'there is no loop')
            ck(ok, 'every variable of the environment is read', 'not every variable of the environment is read: %s' % why)
            st.flags[('var',)] = 1
        elif s == 'make':
            ck(has('envdone'), 'the makefile is read last', 'the makefile is read before the environment')
        st.flags[('s', s)] = 1

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'iter':
            st.flags.pop(('var',), None)
        lp = fr.fn.cfg.loops[lid]
        if lid in self.envloops.get(fr.fn.key, ()):
            if what == 'back':
                self.rep.check(('var',) in st.flags, 'C25.order', fr, node, 'no variable of the environment is left out', 'variables of the environment are left out', st)
        if what == 'back':
            st.flags.pop(('var',), None)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.fn.key in self.envloops:
            st.flags[('s', 'envdone')] = 1


class Implicit(Rule):
    """Names given explicitly on the command line precede those derived from others."""

    def branch(self, eng, st, fr, node, term, truth):
        t, v = strip_old(term), truth
        while t[0] == 'op' and t[1] == '!':
            t, v = t[2], not v
        if callname(t) == 'contains' and t[3] and any(callname(x) == 'toUpper' for x in subterms(t[3])):
            st.flags[('up',)] = int(v)

    def loop(self, eng, st, fr, node, what, lid):
        if fr.parent is None:
            st.flags.pop(('up',), None)
            if what == 'back':
                forget(st, fr, lid)

    def call(self, eng, st, fr, node, ci):
        if ci.has('MacroTable::defineImplicitCommandLineMacroValue'):
            self.rep.check(st.flags.get(('up',)) == 0, 'C25.implicit', fr, node, 'a name in upper case that was given is not replaced',
                           'a macro given on the command line is replaced by one that differs in case', st)


@check('C25')
def c25(prog, rep):
    rep.rule('C25.readonly', 'macros of the command line, and with /E those of the environment, cannot be redefined')
    rep.rule('C25.precedence', 'variables of the environment and predefined macros do not replace macros that exist')
    rep.rule('C25.source', 'a macro remembers where it came from')
    rep.rule('C25.environment', 'macros of the command line and of the environment are exported, also when they change; others are not')
    rep.rule('C25.name', 'only macros with a valid name are defined')
    rep.rule('C25.raw', 'a macro keeps its value unexpanded')
    rep.rule('C25.self', 'the old value of a macro can be used in its new one')
    rep.rule('C25.kept', 'defining a macro removes none')
    rep.rule('C25.order', 'macros are defined by the command line first, then the environment, then jom, then the makefile')
    rep.rule('C25.implicit', 'names given on the command line precede those derived from them')
    rep.rule('C25.ways', 'there is no other way to define a macro')
    opts = dict(events=field_events('MacroTable::MacroData::value', 'MacroTable::MacroData::source', 'MacroTable::MacroData::isReadOnly', 'MacroTable::m_environment',
                                    'MacroTable::m_macros'), noinline=('MacroTable::expandMacros', 'MacroTable::cycleCheckedMacroValue', 'MacroTable::isMacroNameValid', 'MacroTable::macroValue'), limit=60)
    roots = {}
    for name, kind in (('defineCommandLineMacroValue', 'cmd'), ('defineImplicitCommandLineMacroValue', 'impl'), ('defineEnvironmentMacroValue', 'env'),
                       ('setMacroValue', 'make'), ('predefineValue', 'pre')):
        for f in prog.fns(MT + name):
            roots[f.key] = kind
            if f.d['params'][0]['ty'].startswith('const QString') and f.d['params'][1]['ty'].startswith('const QString'):
                run_roots(prog, rep, Define(prog, rep, kind), [f], **opts)
    # other ways
    ev = field_events('MacroTable::MacroData::value', 'MacroTable::MacroData::source', 'MacroTable::MacroData::isReadOnly')
    wr = set()
    for f in prog.funcs.values():
        for n in f.cfg.nodes:
            if n.op == 'assign' and n.a is not None and ev(type('N', (), {'a': n.a, 'b': None})):
                wr.add(f)
            if n.op == 'call' and n.b.get('f', '').split('::')[-1] in ('insert', 'remove', 'clear', 'erase', 'swap', 'take', 'unite', 'operator[]', 'operator=') and \
                    any(x.get('k') == 'mem' and x.get('n') == MT + 'm_macros' for x in walk(n.b.get('o') or {})):
                if n.b.get('f', '').split('::')[-1] in ('operator[]',) and n.b.get('const'):
                    continue
                wr.add(f)
    for f in sorted(wr, key=lambda f: f.key):
        if f.cls is None or not (f.cls.startswith(NS + 'MacroTable')):
            rep.bad('C25.ways', f.short, f.line, 'only the table changes its macros', 'macros are changed by %s' % f.short, None, file=f.file)
    for f in prog.funcs.values():
        if f.cls == NS + 'MacroTable' and f.d.get('acc') == 'public' and f.key not in roots and f.d.get('kind') not in ('ctor', 'dtor') and \
                f.short.split('::')[-1] not in ('undefineMacro', 'MacroTable', '~MacroTable'):
            bad = [g for g in prog.closure([f]) if g in wr]
            rep.check(not bad, 'C25.ways', Site(f), None, '%s changes no macro' % f.short, 'macros can be changed by %s, too' % f.short, None)
    o = Order(prog, rep)
    o.envloops = {}
    for f in prog.funcs.values():
        for n in f.cfg.nodes:
            if n.op == 'call' and n.b.get('f') == MT + 'defineEnvironmentMacroValue' and n.loop is not None:
                o.envloops.setdefault(f.key, set()).add(n.loop)
    run_roots(prog, rep, o, [prog.fn(NS + 'MakefileFactory::apply')],
              events=call_events('MacroTable::defineEnvironmentMacroValue', 'MacroTable::predefineValue', 'Options::readCommandLineArguments', 'Preprocessor::openFile', 'Parser::apply'),
              noinline=('Options::readCommandLineArguments', 'Preprocessor::openFile', 'Parser::apply', 'MacroTable::predefineValue',
                        'MacroTable::setMacroValue', 'MacroTable::defineEnvironmentMacroValue'), limit=60, heapkeep=None)
    for s in ('cmd', 'env', 'pre', 'make', 'start'):
        if s not in o.hit:
            rep.bad('C25.order', 'MakefileFactory::apply', 0, 'step %s' % s, 'a step of the definition of macros is missing: %s' % s, None)
    run_roots(prog, rep, Implicit(prog, rep), [prog.fn(NS + 'Options::readCommandLineArguments')], limit=60,
              noinline=('Options::handleCommandLineOption', 'Options::expandCommandFiles', 'MacroTable::defineImplicitCommandLineMacroValue', 'MacroTable::defineCommandLineMacroValue'))
    rep.require('C25.source', 4)
    rep.require('C25.environment', 4)
    rep.require('C25.order', 5)


class Site(object):
    def __init__(self, fn):
        self.fn = fn
