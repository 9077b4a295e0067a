"""C01, C02, C09, C10: the dependency graph and its use by the executor."""
from .common import *
from .registry import check

DEPS = 'DescriptionBlock::m_dependents'
CHILDREN = 'DependencyGraph::Node::children'
PARENTS = 'DependencyGraph::Node::parents'
STATE = 'DependencyGraph::Node::state'
NODETGT = 'DependencyGraph::Node::target'
LEAVES = 'DependencyGraph::m_leaves'
NODES = 'DependencyGraph::m_nodeContainer'
NEXT = 'TargetExecutor::m_nextTarget'

GRAPH_EVENTS = either(field_events(DEPS, CHILDREN, PARENTS, LEAVES, NODES),
                      call_events('Makefile::target', 'FastFileInfo::FastFileInfo'))
GRAPH_NOINLINE = ('Makefile::target', 'Makefile::dirPath', 'FastFileInfo::FastFileInfo', 'FastFileInfo::exists',
                  'Makefile::applyInferenceRules')


def lookup_of(t, elem):
    """Is t a lookup of the target for the dependent name elem?"""
    t = strip_old(t)
    return callname(t) == 'target' and any(contains(a, elem) for a in t[3])


def shape(t):
    """A name term with the analysed sites removed."""
    t = strip_old(t)
    if not isinstance(t, tuple) or not t:
        return str(t)
    if t[0] == 'elem' and origin_field(t) == NS + DEPS:
        return 'DEPENDENT'
    if t[0] == 'r':
        return t[3] if len(t) > 3 else '?'
    if t[0] == 'm':
        n = t[1].split('(')[0].split('::')[-1]
        if n in ('separator', 'toNativeSeparators'):
            return n
        return n + '(' + ','.join(shape(a) for a in t[3]) + ')'
    if t[0] in ('c', 's'):
        return repr(t[1])
    if t[0] == 'f':
        return t[2].split('::')[-1]
    if t[0] == 'obj':
        return t[1] + '(' + ','.join(shape(a) for a in t[2]) + ')'
    if t[0] == 'op':
        return t[1] + '(' + ','.join(shape(a) for a in t[2:]) + ')'
    return t[0]


class Build(EachRule):
    """One node's dependents are turned into edges."""
    EACH = 'C01.edges'

    PER_ELEM = ('link', 'rec', 'ins', 'null', 'dep', 'exists', 'nt')

    def __init__(self, prog, rep, pid):
        Rule.__init__(self, prog, rep)
        self.pid = pid
        self.shapes = {}
        self.EACH = pid + '.edges'

    def each_want(self, elem):
        return origin_field(elem) == NS + DEPS and elem[1][0] != 'm'

    def node_of(self, elem):
        b = base_of(elem)
        if isinstance(b, tuple) and b[0] == 'f' and b[2] == NS + NODETGT:
            return strip_old(b[1])
        return None

    def each_start(self, eng, st, fr, node, elem):
        self.each_reset(st)
        n = self.node_of(elem)
        if n is not None:
            st.flags[('seenloop', n)] = 1

    def call(self, eng, st, fr, node, ci):
        if grow_call(ci):
            for f, tag in ((CHILDREN, 'c'), (PARENTS, 'p')):
                b = recv_base(ci, f)
                if b is not None:
                    st.flags[('link', tag, strip_old(b), strip_old(ci.args[-1]))] = 1
            if is_container(ci, LEAVES):
                n = ci.args[-1]
                sz = self.size_children(st, n)
                self.rep.check(sz == 0, self.pid + '.leaf', fr, node, 'leaf has no children',
                               'node %s becomes a leaf (may be started) although its list of unbuilt dependents is not known to be empty' % show(n), st)
                st.flags[('leaf', strip_old(n))] = 1
            if ci.short in ('insert', 'operator<<', 'append', 'operator+=') and not self.each_current(st):
                for a in ci.args:
                    st.flags[('ins', strip_old(a))] = 1
        for t in ci.targets:
            if t in fr.stack() and self.each_current(st):
                for a in ci.args:
                    st.flags[('rec', strip_old(a))] = 1

    def size_children(self, st, n):
        loc = ('f', n, NS + CHILDREN)
        v = st.heap.get(loc, loc)
        r = st.val(('size', v))
        if r is None and st.truth(('op', '==', ('c', 0), ('size', v))):
            return 0
        return r

    def branch(self, eng, st, fr, node, t, truth):
        for e in self.each_current(st):
            for x in [t] + [y for y in t[2:] if t[0] == 'op' and isinstance(y, tuple)]:
                x = x[1] if x[0] == 'old' else x
                if x[0] == 'm' and lookup_of(x, e):
                    v = st.truth(x)
                    if v is True:
                        st.flags[('dep', strip_old(x))] = 1
                    elif v is False:
                        st.flags[('null', shape(x[3][0]))] = 1
            if callname(t) == 'exists' and contains(strip_old(t), e) and truth:
                st.flags[('exists',)] = 1
        if callname(t) == 'contains' and truth:
            c = strip_old(t[2])
            for f, tag in ((CHILDREN, 'c'), (PARENTS, 'p')):
                if is_field(c, f):
                    st.flags[('link', tag, c[1], strip_old(t[3][0]))] = 1
            if not self.each_current(st):
                st.flags[('visited', strip_old(t[3][0]))] = 1
        if t[0] == 'op' and t[1] in ('==', '!') and truth and any(x[0] == 'size' for x in subterms(t)):
            for k in [k for k in st.flags if k[0] == 'ins']:
                st.flags[('visited', k[1])] = 1
        if t[0] == 'op' and t[1] == '<' and not truth and all(x[0] == 'size' for x in t[2:]):
            for k in [k for k in st.flags if k[0] == 'ins']:
                st.flags[('visited', k[1])] = 1

    def each_done(self, eng, st, fr, node, elem):
        e = strip_old(elem)
        nd = self.node_of(e)
        if nd is None:
            return
        nulls = {k[1] for k in st.flags if k[0] == 'null'}
        deps = [k[1] for k in st.flags if k[0] == 'dep']
        dep_found = deps[0] if deps else None
        if dep_found is None:
            # a lookup whose result is used untested
            for k in st.flags:
                if k[0] in ('link', 'rec'):
                    for x in subterms(k):
                        if x and x[0] == 'm' and lookup_of(x, e):
                            dep_found = strip_old(x)
        for s in nulls:
            self.shapes[s] = 1
        if dep_found is not None:
            self.shapes[shape(dep_found[3][0])] = 1
        fn = fr
        if dep_found is None:
            ok = ('exists',) in st.flags
            self.rep.check(ok and len(nulls) >= 1, self.pid + '.missing', fn, node,
                           'a dependent that is no target is skipped only if its file exists',
                           'a dependent is passed over although it is not known that no target has its name and that its file exists', st)
            return
        linked = {}
        for k in st.flags:
            if k[0] == 'link' and k[1] == 'c' and k[2] == nd:
                linked.setdefault(k[3], set()).add('c')
            if k[0] == 'link' and k[1] == 'p' and k[3] == nd:
                linked.setdefault(k[2], set()).add('p')
        good = None
        part = False
        for ch, tags in linked.items():
            if self.is_node_for(st, ch, dep_found):
                part = True
                if tags == {'c', 'p'}:
                    good = ch
        self.rep.check(good is not None, self.pid + '.edges', fn, node,
                       'every dependent that is a target gets an edge in both directions',
                       'a dependent that is a target is %s' % ('linked in one direction only' if part else 'not linked to the target that needs it'), st)
        if good is not None:
            self.rep.check(('rec', good) in st.flags, self.pid + '.recurse', fn, node,
                           'the dependents of every dependent are followed',
                           'the dependents of a dependent are not added to the graph', st)

    def is_node_for(self, st, ch, dep):
        if callname(ch) in ('value', 'operator[]') and is_field(ch[2], NODES) and strip_old(ch[3][0]) == dep:
            return True
        if ch[0] == 'elem' and origin_field(ch) == NS + NODES and strip_old(ch[2]) == dep:
            return True
        return ('nt', ch, dep) in st.flags

    def exit(self, eng, st, fr, node, kind, val):
        EachRule.exit(self, eng, st, fr, node, kind, val)
        if kind != 'ret' or fr.parent is not None:
            return
        # a path that returned without looking at the dependents
        for p in fr.fn.params:
            if 'Node' not in p.get('ty', ''):
                continue
            if 'QSet' in p['ty'] or '&' in p['ty'] or 'QList' in p['ty']:
                continue
            n = ('p', fr.fn.key, p['n'])
            empty = any(t[0] == 'size' and origin_field(t) == NS + DEPS and vs == FALSE for t, vs in st.facts.items())
            ok = ('seenloop', n) in st.flags or ('visited', n) in st.flags or empty
            self.rep.check(ok, self.pid + '.visit', fr, node, 'only a visited node is skipped',
                           'the dependents of a node are not looked at although it has not been visited before', st)
            if ('visited', n) not in st.flags:
                sz = self.size_children(st, n)
                self.rep.check(sz is not None and sz != 0 or ('leaf', n) in st.flags or self.nonempty(st, n), self.pid + '.leaves', fr, node,
                               'a node without children becomes a leaf',
                               'a node without unbuilt dependents is not put on the list of leaves: it would never be built', st)

    def nonempty(self, st, n):
        loc = ('f', n, NS + CHILDREN)
        v = st.heap.get(loc, loc)
        return not vs_has(st.vs(('size', v)), 0)

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, NODETGT) and val is not None:
            st.flags[('nt', strip_old(loc[1]), strip_old(val))] = 1


def builders(prog):
    """Functions that go over the dependents of a node's target."""
    r = []
    for f in prog.funcs.values():
        if f.cls != NS + 'DependencyGraph':
            continue
        for lp in f.cfg.loops.values():
            for x in list(walk(lp.container)) + list(walk(lp.cond)):
                if x.get('k') == 'mem' and x.get('n') == NS + DEPS and any(
                        y.get('n') == NS + NODETGT for y in walk(x['b'])):
                    r.append(f)
    # through a local reference
    if not r:
        for f in prog.methods('DependencyGraph'):
            names = {x.get('n') for x in walk(f.d['body']) if x.get('k') == 'mem'}
            if NS + DEPS in names and NS + NODETGT in names and f.cfg.loops:
                r.append(f)
    return list(dict.fromkeys(r))


def run_build(prog, rep, pid):
    mon = Build(prog, rep, pid)
    bs = builders(prog)
    if not bs:
        raise AnalysisError('no function of DependencyGraph iterates over the dependents of a node')
    run_roots(prog, rep, mon, bs, events=GRAPH_EVENTS, noinline=GRAPH_NOINLINE)
    return mon, bs


# ---------------------------------------------------------------- retiring nodes
class Retire(Rule):
    """Nodes leave the graph only when nothing of them remains to be done."""

    def __init__(self, prog, rep, pid):
        Rule.__init__(self, prog, rep)
        self.pid = pid
        self.sites = set()
        self.execst = enum_value(prog, 'ExecutingState')
        self.unb = enum_value(prog, 'Unbuildable')

    def state_known_not(self, st, n, val):
        loc = ('f', n, NS + STATE)
        v = st.vs(st.heap.get(loc, loc))
        return not vs_has(v, val)

    def call(self, eng, st, fr, node, ci):
        if ci.has('DependencyGraph::removeLeaf') and ci.args:
            self.retire(eng, st, fr, node, ci)
        if grow_call(ci) and ci.rloc is not None and ci.rloc[0] == 'loc' and not ci.targets \
                and 'Node *' in ci.e.get('oty', ''):
            just = self.uptodate(eng, st, ci.args[-1])
            k = ('list', ci.rloc[1], ci.rloc[2])
            st.flags[k] = 1 if just and st.flags.get(k, 1) else 0
        if ci.short == 'clear' and ci.rloc is not None and ci.rloc[0] == 'loc':
            st.flags.pop(('list', ci.rloc[1], ci.rloc[2]), None)

    def uptodate(self, eng, st, n):
        p = st.flags.get(('utd',))
        if p is None:
            return False
        want = ('f', n, NS + NODETGT)
        return p[2] in (want, ('old', want)) and st.truth(p[1]) is True and self.state_known_not(st, n, self.execst)

    def after(self, eng, st, fr, node, ci, res):
        if ci.has('DependencyGraph::isTargetUpToDate') and ci.args:
            st.flags[('utd',)] = ('pair', res, ci.args[0])
        elif ci.short.startswith('take') and ci.rloc is not None and ci.rloc[0] == 'loc':
            j = st.flags.get(('list', ci.rloc[1], ci.rloc[2]))
            if j is not None:
                st.flags.pop(('just',), None)
                if j:
                    st.flags[('just',)] = res

    def elem(self, eng, st, fr, node, elem):
        # elements of a local list whose members are all justified
        c = elem[1]
        for k, v in st.env.items():
            if v == c and k[0] == 'v':
                j = st.flags.get(('list', k[1], k[2]))
                if j is not None:
                    st.flags.pop(('just',), None)
                    if j:
                        st.flags[('just',)] = elem

    def retire(self, eng, st, fr, node, ci):
        a = ci.args[0]
        self.sites.add((fr.fn.key, node.id))
        why = None
        if fr.fn.cls == NS + 'DependencyGraph' and fr.fn.name.endswith('::removeLeaf'):
            return
        sa = strip_old(a)
        if st.flags.get(('just',)) == a or self.uptodate(eng, st, a):
            why = 'up to date'
        elif self.commandless(st, a):
            why = 'nothing to run'
        elif self.unbuildable(st, a):
            why = 'cannot be built'
        elif is_field(sa, 'CommandExecutor::m_pTarget') or callname(sa) == 'target':
            # the target of the executor whose finished signal is handled
            why = 'finished'
            slot = any(f.name == NS + 'TargetExecutor::onChildFinished' or f in eng.p.signal_slots(NS + 'CommandExecutor::finished')
                       for f in fr.stack())
            b = strip_old(sa[1] if sa[0] == 'f' else sa[2])
            ok = slot and b[0] == 'p'
            self.rep.check(ok, self.pid + '.retire', fr, node, 'a running target is retired when its commands have finished',
                           'the target of an executor leaves the graph although the executor has not reported that it finished', st)
            return
        self.rep.check(why is not None, self.pid + '.retire', fr, node, 'retired because it is ' + (why or 'done'),
                       '%s leaves the graph (its dependents may start) although it is neither known to be up to date, nor without commands, nor unbuildable, nor finished' % show(a), st)

    def commandless(self, st, a):
        for t, vs in st.facts.items():
            if t[0] == 'size' and origin_field(t) == NS + 'CommandContainer::m_commands' and vs == FALSE:
                if strip_old(base_of(t)) == strip_old(a) or strip_old(base_of(t)) == ('f', strip_old(a), NS + NODETGT):
                    return True
        return False

    def unbuildable(self, st, a):
        for t, vs in st.facts.items():
            if callname(strip_old(t)) == 'isUnbuildable' and contains(strip_old(t), strip_old(a)) and not vs_has(vs, 0):
                return True
            if is_field(t, STATE) and vs == (self.unb, self.unb, ()) and (contains(strip_old(t), strip_old(a))):
                return True
        return False


def enum_value(prog, name):
    for e in prog.enums.values():
        for v in e['v']:
            if v['n'].split('::')[-1] == name:
                return v['v']
    raise AnalysisError('enumerator %s not found' % name)


class RemoveLeaf(EachRule):
    """Taking a node out: all its parents lose exactly this child, and become leaves only when empty."""

    def __init__(self, prog, rep, pid):
        Rule.__init__(self, prog, rep)
        self.pid = pid
        self.EACH = pid + '.unlink'

    def each_want(self, elem):
        return origin_field(elem) == NS + PARENTS

    def call(self, eng, st, fr, node, ci):
        b = recv_base(ci, CHILDREN)
        if b is not None and ci.short in SHRINK:
            ok = ci.short in ('removeOne', 'removeAll') and bool(ci.args)
            self.rep.check(ok, self.pid + '.unlink', fr, node, 'only the retired child is unlinked',
                           'children are removed by %s: unbuilt dependents may be forgotten' % ci.short, st)
            if ci.args:
                st.flags[('unlinked', strip_old(b))] = ci.args[0]
        if grow_call(ci, LEAVES):
            n = ci.args[-1]
            loc = ('f', n, NS + CHILDREN)
            v = st.heap.get(loc, loc)
            self.rep.check(st.val(('size', v)) == 0, self.pid + '.leaf', fr, node, 'leaf has no children',
                           '%s becomes a leaf (may be started) although its list of unbuilt dependents is not known to be empty' % show(n), st)
            st.flags[('leaf', strip_old(n))] = 1

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, CHILDREN) and loc[1][0] != 'new':
            self.rep.check(False, self.pid + '.unlink', fr, node, 'children list assigned',
                           'the list of unbuilt dependents of a node is overwritten', st)

    def each_start(self, eng, st, fr, node, elem):
        for k in [k for k in st.flags if k[0] in ('unlinked', 'leaf')]:
            del st.flags[k]

    def each_done(self, eng, st, fr, node, elem):
        p = strip_old(elem)
        n = base_of(elem)
        u = st.flags.get(('unlinked', p))
        self.rep.check(u is not None and strip_old(u) == strip_old(n), self.pid + '.unlink', fr, node,
                       'every parent loses the retired child',
                       'a parent of the retired node keeps it in its list of unbuilt dependents (or loses another one)', st)
        loc = ('f', elem, NS + CHILDREN)
        v = st.heap.get(loc, loc)
        if vs_has(st.vs(('size', v)), 0):
            self.rep.check(('leaf', p) in st.flags, self.pid + '.leaves', fr, node, 'a parent without children becomes a leaf',
                           'a parent whose last dependent was built does not become a leaf: it would never be built', st)


def unlinkers(prog):
    return [f for f in prog.funcs.values() if any(
        n.op == 'call' and n.b.get('o') is not None and n.b['o'].get('k') == 'mem' and n.b['o'].get('n') == NS + CHILDREN
        and n.b.get('f', '').split('::')[-1] in SHRINK for n in f.cfg.nodes)]


EXEC_EVENTS = either(call_events('DependencyGraph::removeLeaf', 'DependencyGraph::isTargetUpToDate', 'CommandExecutor::start',
                                 'DependencyGraph::findAvailableTarget', 'DependencyGraph::build'),
                     field_events(NEXT, STATE))


def entries(prog):
    """Slots and public entry points of the executor."""
    return ['TargetExecutor::startProcesses', 'TargetExecutor::buildNextTarget', 'TargetExecutor::onChildFinished',
            'TargetExecutor::apply']


class Start(Rule):
    """What is started is what the graph handed out."""

    def __init__(self, prog, rep, pid):
        Rule.__init__(self, prog, rep)
        self.pid = pid

    def call(self, eng, st, fr, node, ci):
        if ci.has('CommandExecutor::start'):
            a = strip_old(ci.args[0])
            f = fr
            while f.parent is not None:
                f = f.parent
            loc = ('f', f.this, NS + NEXT)
            st.flags.pop(('starting',), None)
            if st.val(st.heap.get(loc, loc)) != 0:
                st.flags[('starting',)] = 1
            self.rep.check(is_field(a, NEXT) or self.handed(a), self.pid + '.start', fr, node, 'commands started for the target the graph handed out',
                           'commands are started for %s, which is not the target the graph handed out' % show(a), st)

    def after(self, eng, st, fr, node, ci, res):
        if ci.has('CommandExecutor::start') and st.flags.pop(('starting',), None):
            st.flags[('started',)] = 1

    def handed(self, a):
        return a[0] == 'r' and a[3] == 'findAvailableTarget()'

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, NEXT):
            v = strip_old(val)
            self.rep.check(v == ('c', 0) or self.handed(v) or is_field(v, NEXT), self.pid + '.start', fr, node,
                           'the next target comes from the graph',
                           'the next target to be built is set to %s, which the graph did not hand out' % show(v), st)
            if v == ('c', 0):
                st.flags.pop(('started',), None)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            self.rep.check(('started',) not in st.flags, 'C02.reset' if self.pid == 'C02' else self.pid + '.start', fr, node,
                           'the started target is no longer the next one',
                           'a target whose commands were started stays the next target: it would be started again', st)


class Batch(Rule):
    """A target whose inference rules were used has the commands of one, or waits for the target that has."""
    RULES = 'DescriptionBlock::m_inferenceRules'
    CMDS = 'CommandContainer::m_commands'

    def call(self, eng, st, fr, node, ci):
        l = strip_old(ci.rloc if ci.rloc is not None else ci.recv) if ci.recv is not None else None
        if is_field(l, self.RULES) and not ci.e.get('const') and ci.short in SHRINK:
            t = l[1]
            if ('cmds', t) not in st.flags and ('single',) not in st.flags:
                st.flags[('used', t)] = node.line
        elif ci.recv is not None and ci.short in GROW and origin_field(l) == NS + 'Makefile::m_batchModeTargets':
            st.flags[('single',)] = 1

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, self.CMDS):
            st.flags.pop(('used', strip_old(loc[1])), None)
            st.flags[('cmds', strip_old(loc[1]))] = 1

    def judge(self, st, node, what):
        for k in [k for k in st.flags if k[0] == 'used']:
            multi = k[1][0] in ('elem', 'j', 'r')
            if what == 'back' and not multi:
                continue
            self.rep.bad('C01.batch', 'Makefile', st.flags.pop(k), 'batch' if multi else 'single',
                         'inference rules of %s are taken away, but it does not get the commands of one: it is regarded as finished although '
                         'nothing has made it' % ('all targets of a batch' if multi else 'a target'), st, file='jomlib/makefile.cpp')

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'back':
            self.judge(st, node, what)
            for k in [k for k in st.flags if k[0] == 'single' or k[0] == 'cmds' and k[1][0] in ('elem', 'j', 'r')]:
                del st.flags[k]

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            self.judge(st, node, what='exit')
            self.rep.ok('C01.batch', 'Makefile: targets made by an inference rule have its commands')


@check('C01')
def c01(prog, rep):
    rep.rule('C01.edges', 'in the graph builder every dependent that names a target is linked to the node that needs it, '
                          'in both directions, in every iteration over the dependents')
    rep.rule('C01.recurse', 'the builder descends into every linked dependent')
    rep.rule('C01.visit', 'a node is skipped only if it was visited')
    rep.rule('C01.missing', 'a dependent gets no node only if no target has its name and its file exists')
    rep.rule('C01.leaf', 'a node joins the leaves only when its list of unbuilt dependents is empty')
    rep.rule('C01.leaves', 'a node without unbuilt dependents joins the leaves')
    rep.rule('C01.unlink', 'the list of unbuilt dependents of a node shrinks only by the node being retired')
    rep.rule('C01.retire', 'a node is retired only if up to date and not running, without commands, unbuildable, or finished')
    rep.rule('C01.start', 'commands are started only for the target the graph handed out')
    rep.rule('C01.batch', 'a target whose inference rules are used up has the commands of one of them')
    rep.rule('C01.root', 'the graph is built from the requested target')
    run_build(prog, rep, 'C01')
    rep.require('C01.edges', 2)
    rep.require('C01.recurse', 1)
    us = unlinkers(prog)
    if not us:
        raise AnalysisError('no function shrinks the list of unbuilt dependents')
    run_roots(prog, rep, RemoveLeaf(prog, rep, 'C01'), us,
              events=field_events(CHILDREN, PARENTS, LEAVES), small=30)
    rep.require('C01.unlink', 3)
    ret = Retire(prog, rep, 'C01')
    run_roots(prog, rep, ret, ['DependencyGraph::findAvailableTarget'], events=EXEC_EVENTS,
              noinline=('DependencyGraph::isTargetUpToDate', 'DependencyGraph::removeLeaf'))
    eng = run_roots(prog, rep, ret, entries(prog),
                    events=EXEC_EVENTS, noinline=('DependencyGraph::findAvailableTarget', 'DependencyGraph::build',
                                                   'DependencyGraph::removeLeaf', 'DependencyGraph::isUnbuildable',
                                                   'CommandExecutor::start'))
    for f in prog.funcs.values():
        for n in f.cfg.nodes:
            if n.op == 'call' and n.b.get('f') == NS + 'DependencyGraph::removeLeaf' and (f.key, n.id) not in ret.sites \
                    and not f.name.endswith('DependencyGraph::removeLeaf'):
                eng.run(f)
    rep.absorb(eng)
    rep.require('C01.retire', 4)
    run_roots(prog, rep, Start(prog, rep, 'C01'), entries(prog), events=EXEC_EVENTS,
              noinline=('DependencyGraph::isTargetUpToDate', 'DependencyGraph::build', 'DependencyGraph::removeLeaf',
                        'CommandExecutor::start', 'DependencyGraph::findAvailableTarget'))
    rep.require('C01.start', 2)
    # the graph is built from the requested target
    for f in prog.fns('DependencyGraph::build'):
        root_ok = False

        class Root(Rule):
            def call(self, eng, st, fr, node, ci):
                if any(t in bs for t in ci.targets):
                    for a in ci.args:
                        for loc, v in st.heap.items():
                            if loc[0] == 'f' and loc[2] == NS + NODETGT and loc[1] == a and v == ('p', f.key, f.params[0]['n']):
                                st.flags[('root',)] = 1

            def exit(self, eng, st, fr, node, kind, val):
                if fr.parent is None and kind == 'ret':
                    self.rep.check(('root',) in st.flags, 'C01.root', fr, node, 'graph built from the requested target',
                                   'the graph is not built from the node of the requested target', st)
        bs = builders(prog)
        run_roots(prog, rep, Root(prog, rep), [f], events=field_events(NODES, NODETGT), noinline=[b.short for b in bs])
    # inference rules give commands to every target they are used for
    fs = [f for f in prog.funcs.values() if f.name.startswith(NS + 'Makefile::') and
          any(n.op == 'call' and (n.b.get('n') or n.b.get('f') or '').split('::')[-1] in SHRINK and
              any(x.get('k') == 'mem' and x.get('n') == NS + Batch.RULES for x in walk(n.b)) for n in f.cfg.nodes)]
    run_roots(prog, rep, Batch(prog, rep), sorted(fs, key=lambda f: f.key), events=field_events(Batch.RULES, Batch.CMDS, 'Makefile::m_batchModeTargets'))
    rep.require('C01.batch', 1)


# ---------------------------------------------------------------- C02
class Handout(Rule):
    """A target leaves findAvailableTarget at most once while it may run."""

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)
        self.execst = enum_value(prog, 'ExecutingState')
        self.unb = enum_value(prog, 'Unbuildable')
        self.unk = enum_value(prog, 'UnknownState')

    def write(self, eng, st, fr, node, loc, val, op):
        if not is_field(loc, STATE) or val is None:
            return
        v = st.val(val)
        if loc[1][0] == 'new':
            self.rep.check(v == self.unk, 'C02.state', fr, node, 'a new node has not been handed out', 'a new node starts with state %s' % show(val), st)
            return
        self.rep.check(v in (self.execst, self.unb), 'C02.state', fr, node, 'the state of a node only becomes executing or unbuildable',
                       'the state of a node is set to %s: a target that was handed out could be handed out again' % show(val), st)
        if v == self.execst:
            cur = st.heap.get(loc, loc)
            if not vs_has(st.vs(cur), self.execst):
                st.flags[('marked',)] = loc[1]

    def ret(self, eng, st, fr, node, val):
        if not fr.fn.name.endswith('DependencyGraph::findAvailableTarget') or val is None or st.val(val) == 0:
            return
        v = strip_old(val)
        if is_field(v, NODETGT):
            n = v[1]
            loc = ('f', n, NS + STATE)
            s = TOP
            for t in list(st.heap) + list(st.facts):
                if strip_old(t) == loc:
                    x = st.vs(st.heap.get(t, t))
                    if x != TOP and (s == TOP or t[0] != 'old'):
                        s = x
            ok = (s == (self.unb, self.unb, ())) or (s == (self.execst, self.execst, ()) and strip_old(st.flags.get(('marked',))) == n)
            self.rep.check(ok, 'C02.handout', fr, node, 'a handed out target was not running and is marked as running',
                           'the target of %s is handed out without being marked as running (or although it may be running): it can be handed out again' % show(n), st)
        else:
            self.rep.check(False, 'C02.handout', fr, node, 'what is handed out is a leaf\'s target',
                           '%s is handed out, which is not the target of a leaf' % show(v), st)


class Unique(Rule):
    """One node per target."""

    def check_new(self, eng, st, fr, node, tgt, val):
        t = strip_old(tgt)
        known = False
        for k in st.flags:
            if k[0] == 'nonode' and k[1] == t:
                known = True
        root = any(f.name.endswith('DependencyGraph::build') for f in fr.stack()) and t[0] == 'p'
        self.rep.check(known or root, 'C02.unique', fr, node, 'a node is created only for a target without one',
                       'a node is created for %s although it may have one already: its commands could run twice' % show(t), st)

    def branch(self, eng, st, fr, node, t, truth):
        for x in subterms(t):
            if x[0] == 'm' and callname(x) in ('value', 'contains') and is_field(x[2], NODES) and st.truth(x) is False:
                st.flags[('nonode', strip_old(x[3][0]))] = 1

    def write(self, eng, st, fr, node, loc, val, op):
        if loc[0] == 'elem' and is_field(loc[1], NODES):
            self.check_new(eng, st, fr, node, loc[2], val)

    def call(self, eng, st, fr, node, ci):
        if is_container(ci, NODES) and ci.short == 'insert' and ci.recv is not None:
            self.check_new(eng, st, fr, node, ci.args[0], ci.args[1])

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'back':
            for k in [k for k in st.flags if k[0] == 'nonode']:
                del st.flags[k]


class Flow(Rule):
    """The slot m_nextTarget is filled only when free and never dropped."""

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)

    def acquiring(self, st):
        for t, vs in st.facts.items():
            if is_field(t, 'JobClient::m_isAcquiring') and t[0] == 'f':
                return not (vs == FALSE)
        return True

    def next_free(self, st, fr):
        loc = ('f', self.this(fr), NS + NEXT)
        v = st.heap.get(loc, loc)
        return st.val(v) == 0 or ('retired',) in st.flags and strip_old(st.flags[('retired',)]) == strip_old(v)

    def this(self, fr):
        f = fr
        while f.parent is not None:
            f = f.parent
        return f.this

    def call(self, eng, st, fr, node, ci):
        if ci.has('DependencyGraph::findAvailableTarget'):
            self.rep.check(self.next_free(st, fr), 'C02.lost', fr, node, 'a new target is taken only when the previous one was started or retired',
                           'a target is taken from the graph although the previously taken one has neither been started nor retired: it is marked as running and would never be built', st)
            self.rep.check(not self.acquiring(st), 'C02.acquiring', fr, node, 'nothing happens while a token is being acquired',
                           'a target is chosen although a job token may be being acquired', st)
            st.flags.pop(('retired',), None)
        elif ci.has('DependencyGraph::removeLeaf'):
            st.flags[('retired',)] = ci.args[0]
        elif ci.has('JobClient::asyncAcquire'):
            self.rep.check(not self.acquiring(st), 'C02.acquiring', fr, node, 'one acquisition at a time',
                           'a token is acquired although another acquisition may be under way: the target would be started twice', st)
        elif ci.has('CommandExecutor::start'):
            if fr.stack()[-1].name.endswith('startProcesses'):
                self.rep.check(not self.acquiring(st), 'C02.acquiring', fr, node, 'no start while a token is being acquired',
                               'a target is started although a job token may be being acquired for it: it would be started twice', st)
        elif ci.has('DependencyGraph::build'):
            root = fr.stack()[-1]
            if not root.name.endswith('TargetExecutor::apply'):
                self.rep.check(('cleared',) in st.flags, 'C02.rebuild', fr, node, 'the old graph is cleared before the next one is built',
                               'the graph of the next requested target is built on top of the old one', st)
        elif ci.has('DependencyGraph::clear'):
            st.flags[('cleared',)] = 1


@check('C02')
def c02(prog, rep):
    rep.rule('C02.handout', 'the graph hands out a target only if its node was not marked as running, and marks it')
    rep.rule('C02.state', 'the mark is never taken back')
    rep.rule('C02.unique', 'a node is created only for a target for which the graph has none')
    rep.rule('C02.reset', 'after the start of a target it is no longer the next target')
    rep.rule('C02.lost', 'a target is taken only when the previous one was started or retired')
    rep.rule('C02.acquiring', 'while a token is acquired for a target nothing else is chosen or started')
    rep.rule('C02.rebuild', 'the graph is cleared before the graph of the next requested target is built')
    rep.rule('C02.start', 'commands are started only for the target the graph handed out')
    h = Handout(prog, rep)
    run_roots(prog, rep, h, ['DependencyGraph::findAvailableTarget', 'DependencyGraph::createNode'],
              events=field_events(STATE), noinline=('DependencyGraph::isTargetUpToDate', 'DependencyGraph::removeLeaf'))
    done = {'DependencyGraph::findAvailableTarget', 'DependencyGraph::createNode'}
    ws = [f for f in prog.funcs.values() if any(
        n.op == 'assign' and n.a.get('k') == 'mem' and n.a.get('n') == NS + STATE for n in f.cfg.nodes) and f.short not in done]
    run_roots(prog, rep, h, ws, events=field_events(STATE))
    rep.require('C02.handout', 1)
    rep.require('C02.state', 2)
    run_roots(prog, rep, Unique(prog, rep), builders(prog) + prog.fns('DependencyGraph::build'), events=field_events(NODES, NODETGT),
              noinline=GRAPH_NOINLINE)
    rep.require('C02.unique', 1)
    run_roots(prog, rep, Start(prog, rep, 'C02'), entries(prog), events=EXEC_EVENTS,
              noinline=('DependencyGraph::isTargetUpToDate', 'DependencyGraph::build', 'DependencyGraph::removeLeaf',
                        'CommandExecutor::start', 'DependencyGraph::findAvailableTarget'))
    rep.require('C02.reset', 1)
    run_roots(prog, rep, Flow(prog, rep), entries(prog), events=either(EXEC_EVENTS, field_events('JobClient::m_isAcquiring'),
                                                                        call_events('DependencyGraph::clear', 'JobClient::asyncAcquire')),
              noinline=('DependencyGraph::build', 'DependencyGraph::removeLeaf', 'DependencyGraph::clear', 'JobClient::asyncAcquire',
                        'CommandExecutor::start', 'DependencyGraph::findAvailableTarget'))
    rep.require('C02.lost', 1)
    rep.require('C02.acquiring', 3)
    rep.require('C02.rebuild', 1)


# ---------------------------------------------------------------- C09
class Cycle(EachRule):
    EACH = 'C09.loop'
    PER_ELEM = ('null', 'dep', 'rec')
    VIS = 'DescriptionBlock::m_bVisitedByCycleCheck'
    NOC = 'DescriptionBlock::m_bNoCyclesRootedHere'

    def __init__(self, prog, rep, shapes):
        Rule.__init__(self, prog, rep)
        self.shapes = shapes
        self.loops = set()
        self.memos = []

    def each_want(self, elem):
        return origin_field(elem) == NS + DEPS

    def each_start(self, eng, st, fr, node, elem):
        b = base_of(elem)
        loc = ('f', b, NS + self.VIS)
        self.loops.add((fr.fn.key, fr.fn.cfg.loops[loopctx(fr, node)[1]].id))
        self.rep.check(strip_old(st.flags.get(('marked',))) == strip_old(b), 'C09.mark', fr, node, 'the target is marked while its dependents are followed',
                       'the dependents of a target are followed although it is not marked as being visited: a cycle would not be noticed', st)

    def branch(self, eng, st, fr, node, t, truth):
        if not self.each_current(st) and ('marked',) not in st.flags:
            for x in subterms(t):
                if is_field(x, self.VIS) and x[0] == 'f' and st.truth(x) is True:
                    st.flags[('met',)] = 1
        for e in self.each_current(st):
            for x in [t] + [y for y in t[2:] if t[0] == 'op' and isinstance(y, tuple)]:
                x = x[1] if x[0] == 'old' else x
                if x[0] == 'm' and lookup_of(x, e):
                    v = st.truth(x)
                    if v is not None:
                        st.flags[('dep' if v else 'null', shape(x[3][0]))] = 1

    def call(self, eng, st, fr, node, ci):
        for t in ci.targets:
            if t in fr.stack():
                for a in ci.args:
                    for e in self.each_current(st):
                        a = strip_old(a)
                        if a[0] == 'm' and lookup_of(a, e):
                            st.flags[('rec', shape(a[3][0]))] = 1

    def each_done(self, eng, st, fr, node, elem):
        deps = {k[1] for k in st.flags if k[0] == 'dep'}
        nulls = {k[1] for k in st.flags if k[0] == 'null'}
        recs = {k[1] for k in st.flags if k[0] == 'rec'}
        if deps:
            # the first lookup that succeeds decides
            self.rep.check(bool(deps & recs), 'C09.follow', fr, node, 'every dependent that is a target is followed',
                           'the cycle check does not follow a dependent that is a target', st)
            return
        left = set(self.shapes) - nulls - recs
        self.rep.check(not left, 'C09.follow', fr, node, 'a dependent is looked up under every name the graph builder uses',
                       'the cycle check does not follow a dependent that the graph builder finds as %s: such a cycle is not diagnosed' % ', '.join(sorted(left)), st)

    def write(self, eng, st, fr, node, loc, val, op):
        if is_field(loc, self.VIS):
            if st.val(val) == 1:
                st.flags[('marked',)] = loc[1]
            else:
                st.flags.pop(('marked',), None)
        if is_field(loc, self.NOC) and st.val(val) != 0:
            self.memos.append((fr, node, st))

    def finish(self):
        for fr, node, st in self.memos:
            cfg = fr.fn.cfg
            heads = {n.id for n in cfg.nodes if n.op in ('loophead', 'feinit') and (fr.fn.key, n.a if n.op == 'loophead' else n.c) in self.loops}
            seen = set()
            work = [cfg.entry]
            while work:
                x = work.pop()
                if x in seen or x in heads:
                    continue
                seen.add(x)
                work.extend(cfg.nodes[x].succ)
            ok = node.id not in seen and node.loop is None
            self.rep.check(ok, 'C09.memo', fr, node, 'a target is known to be free of cycles only after all its dependents were followed',
                           'a target is marked as free of cycles before its dependents were followed', st)

    def exit(self, eng, st, fr, node, kind, val):
        EachRule.exit(self, eng, st, fr, node, kind, val)
        if fr.parent is not None:
            return
        if ('met',) in st.flags:
            self.rep.check(kind == 'throw', 'C09.report', fr, node, 'meeting a target that is being visited is an error',
                           'a target that is being visited is met again but no error is raised', st)


def dep_changes(n):
    if n.op != 'call' or n.b.get('o') is None or n.b.get('f', '').split('::')[-1] not in GROW | SHRINK:
        return False
    return any(x.get('k') == 'mem' and x.get('n') == NS + DEPS for x in walk(n.b['o']))


class CheckAll(EachRule):
    """Parser::apply checks every active target, after all dependents are known."""
    EACH = 'C09.all'
    ACT = 'Parser::m_activeTargets'
    PER_ELEM = ('chk',)

    def __init__(self, prog, rep, checker):
        Rule.__init__(self, prog, rep)
        self.checker = checker

    def each_want(self, elem):
        return origin_field(elem) == NS + self.ACT

    def call(self, eng, st, fr, node, ci):
        if any(t is self.checker for t in ci.targets):
            for e in self.each_current(st):
                if any(contains(strip_old(a), e) for a in ci.args):
                    st.flags[('chk',)] = 1
                    st.flags[('anychk',)] = 1
        elif ('anychk',) in st.flags and is_container(ci, DEPS) and (ci.short in SHRINK or ci.short in GROW) and not ci.e.get('const'):
            b = recv_base(ci, DEPS)
            self.rep.check(b is not None and strip_old(b)[0] == 'new', 'C09.order', fr, node, 'no dependents are added after the cycle check',
                           'dependents are added to targets after the cycle check', st)

    def each_done(self, eng, st, fr, node, elem):
        if ('chk',) in st.flags:
            st.flags[('allchk',)] = 1

    def write(self, eng, st, fr, node, loc, val, op):
        if ('anychk',) in st.flags and is_field(loc, DEPS):
            self.rep.check(False, 'C09.order', fr, node, 'no dependents are added after the cycle check',
                           'dependents are added to targets after the cycle check', st)

    def exit(self, eng, st, fr, node, kind, val):
        EachRule.exit(self, eng, st, fr, node, kind, val)
        if fr.parent is not None or kind != 'ret':
            return
        notargets = any(t[0] == 'size' and vs == FALSE and (mentions_field(t, 'Makefile::m_targets')) for t, vs in st.facts.items())
        noactive = any(t[0] == 'size' and vs == FALSE and origin_field(t) == NS + self.ACT for t, vs in st.facts.items())
        self.rep.check(('allchk',) in st.flags or notargets or noactive, 'C09.all', fr, node, 'every active target is checked for cycles',
                       'parsing ends without the cycle check of the active targets', st)


@check('C09')
def c09(prog, rep):
    rep.rule('C09.follow', 'the cycle check follows every dependent under every name under which the graph builder finds it')
    rep.rule('C09.loop', 'its loop reaches every dependent')
    rep.rule('C09.mark', 'a target is marked while its dependents are followed')
    rep.rule('C09.memo', 'a target is remembered as free of cycles only after its dependents were followed')
    rep.rule('C09.report', 'meeting a marked target raises an error')
    rep.rule('C09.all', 'every active target is checked before the makefile is handed over')
    rep.rule('C09.order', 'dependents are not changed after the check')
    class Quiet(Build):
        pass
    from ..report import Report
    scratch = Report('x')
    mon, bs = run_build(prog, scratch, 'x')
    shapes = sorted(mon.shapes)
    rep.notes.append('names under which the graph builder looks a dependent up: ' + '; '.join(shapes))
    if not shapes:
        raise AnalysisError('no lookup found in the graph builder')
    ck = prog.fn('Parser::checkForCycles')
    cyc = Cycle(prog, rep, shapes)
    run_roots(prog, rep, cyc, [ck], events=either(field_events(DEPS, Cycle.VIS), call_events('Makefile::target')),
              noinline=('Makefile::target', 'Makefile::dirPath'))
    cyc.finish()
    rep.require('C09.follow', 1)
    rep.require('C09.report', 1)
    rep.require('C09.memo', 1)
    run_roots(prog, rep, CheckAll(prog, rep, ck), ['Parser::apply'], events=either(call_events('Parser::checkForCycles'), dep_changes),
              noinline=('Parser::checkForCycles', 'Makefile::target', 'Makefile::dirPath', 'Parser::parseDotDirective', 'Parser::parseInferenceRule',
                        'Parser::parseDescriptionBlock'), heapkeep=(),
              keepfacts=lambda t: mentions_field(t, 'Parser::m_activeTargets') or mentions_field(t, 'Makefile::m_targets'))
    rep.require('C09.all', 1)


# ---------------------------------------------------------------- C10
class Missing(Build):
    def __init__(self, prog, rep, pid):
        Build.__init__(self, prog, rep, pid)

    def noreturn(self, eng, st, fr, node, ci):
        if self.each_current(st) and any(k[0] == 'null' for k in st.flags):
            v = st.vs(ci.args[0]) if ci.args else TOP
            self.rep.check(not vs_has(v, 0), 'C10.status', fr, node, 'the abort has a non-zero exit status',
                           'jom ends with %s although a dependent does not exist' % (show(ci.args[0]) if ci.args else 'an unknown status'), st)
            self.rep.check(('named',) in st.flags, 'C10.named', fr, node, 'the missing dependent is named',
                           'jom ends without a message about the missing dependent', st)
            st.flags[('gone',)] = 1

    def call(self, eng, st, fr, node, ci):
        Build.call(self, eng, st, fr, node, ci)
        if ci.short in ('fputs', 'fprintf', 'puts', 'printf', 'operator<<', 'fwrite') and any(k[0] == 'null' for k in st.flags):
            st.flags[('named',)] = 1


class BuildFirst(Rule):
    def call(self, eng, st, fr, node, ci):
        if ci.has('DependencyGraph::build'):
            st.flags[('built',)] = 1
        if ci.short in ('invokeMethod', 'singleShot') and any(a == ('s', 'startProcesses') or 'startProcesses' in str(a) for a in ci.args) \
                or ci.has('TargetExecutor::startProcesses') or ci.has('CommandExecutor::start'):
            self.rep.check(('built',) in st.flags, 'C10.before', fr, node, 'the graph is complete before the build starts',
                           'the build is started before the graph of the requested target is built', st)


@check('C10')
def c10(prog, rep):
    rep.rule('C10.missing', 'a dependent is passed over only if no target has its name (under any name the builder uses) and its file exists')
    rep.rule('C10.status', 'otherwise jom ends with a non-zero status')
    rep.rule('C10.named', 'and prints a message')
    rep.rule('C10.before', 'the graph, including this test, is completed before the first command is started')
    for r in ('edges', 'recurse', 'visit', 'leaf', 'leaves'):
        rep.rule('C10.' + r, 'as C01.' + r)
    mon = Missing(prog, rep, 'C10')
    run_roots(prog, rep, mon, builders(prog), events=GRAPH_EVENTS, noinline=GRAPH_NOINLINE)
    rep.require('C10.missing', 1)
    if not any(k[0] == 'C10.status' for k in rep.obl):
        if not any(k[0] == 'C10.missing' for k in rep.viol):
            raise AnalysisError('no abort found for a missing dependent')
    run_roots(prog, rep, BuildFirst(prog, rep), ['TargetExecutor::apply'], events=call_events('DependencyGraph::build'),
              noinline=('DependencyGraph::build',))
    rep.require('C10.before', 1)
