"""C11: .SYNC among the dependents of a description block."""
from .common import *
from .registry import check
from .graph import DEPS

SYNC = 'Parser::m_syncPoints'
RULESOF = 'findRulesByTargetName'
LISTVIEW = ('mid', 'left', 'sliced', 'first')


def is_sync(t):
    return t == ('s', '.SYNC') or isinstance(t, tuple) and len(t) == 2 and t[0] == 's' and t[1] == '.SYNC'


class Collect(Rule):
    """The list of dependents is gone through; each one is made to wait for what stands before the last .SYNC."""
    EACH = 'C11.loop'

    def __init__(self, prog, rep):
        Rule.__init__(self, prog, rep)

    # flags: ('it', f.id, lid) -> ('s'|'d', elem)  the iteration treats a .SYNC or a dependent
    #        ('deps',) -> list to be waited for; ('sync',) after a .SYNC
    def cur(self, st):
        for k, v in st.flags.items():
            if k[0] == 'it':
                return k, v
        return None, None

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth, True)
        a = None
        if x[0] == 'op' and x[1] == '==' and len(x) == 4 and (is_sync(strip_old(x[2])) or is_sync(strip_old(x[3]))):
            a = x[3] if is_sync(strip_old(x[2])) else x[2]
        elif callname(x) in ('operator==', 'compare', 'contains') and any(is_sync(strip_old(y)) for y in x[3]):
            a = x[2]
            if callname(x) == 'compare':
                v = not v
        if a is None:
            if x[0] == 'op' and x[1] in ('==', '<') and len(x) == 4:
                k, it = self.cur(st)
                if it is not None and it[0] == 's':
                    for y, z in ((x[2], x[3]), (x[3], x[2])):
                        if strip_old(z)[0] == 'size' and self.is_idx(st, y):
                            # the .SYNC was the last one
                            last = v if x[1] == '==' else (not v if z == x[3] else None)
                            if last:
                                st.flags[('end',)] = 1
            return
        f, lid = loopctx(fr, node)
        if f is None:
            return
        loop = f.fn.cfg.loops[lid]
        ok, why = loop_complete(loop)
        self.rep.check(ok, self.EACH, f, node, 'the loop over the dependents reaches every one', 'the search for .SYNC does not reach every dependent: %s' % why, st)
        st.flags[('it', f.id, lid)] = ('s' if v else 'd', a)
        if ('at',) in st.flags:
            st.flags[('list',)] = st.flags.pop(('at',))
        for k in ('rec', 'end', 'gone', 'grp', 'cand'):
            st.flags.pop((k,), None)
        if v:
            st.flags[('sync',)] = 1
        s = strip_old(a)
        if s[0] == 'elem' and s[2][0] != 'site':
            st.flags[('idx',)] = self.rawpos(a)

    def rawpos(self, a):
        e = a[1] if a[0] == 'old' else a
        return e[2]

    def is_idx(self, st, y):
        i = st.flags.get(('idx',))
        return i is not None and strip_old(i) == strip_old(y)

    def cand(self, st, ci):
        """Does the call return all dependents before the current .SYNC?"""
        i = st.flags.get(('idx',))
        l = ci.rloc if ci.rloc is not None else ci.recv
        if i is None or not ci.args or strip_old(l) != strip_old(st.flags.get(('list',))):
            return False
        if ci.short == 'left':
            return strip_old(ci.args[0]) == strip_old(i)
        if len(ci.args) < 2:
            return False
        a, d = strip_old(ci.args[0]), strip_old(ci.args[1])
        if a[0] not in ('p', 'c', 'size'):
            return False     # a bound that moves with the loop: only the last group
        if d[0] == 'op' and d[1] == '-':
            return strip_old(d[2]) == strip_old(i) and d[3] == a
        return a == ('c', 0) and d == strip_old(i) or strip_old(i) == a and d == ('c', 0)

    def write(self, eng, st, fr, node, loc, val, op):
        k, it = self.cur(st)
        if it is None or it[0] != 's':
            return
        if loc[0] not in ('loc', 'v'):
            return
        v = st.flags.get(('cand',))
        ok = v is not None and strip_old(val) == strip_old(v)
        for f in [f for f in st.flags if f[0] == 'seen']:
            # a list to which the dependents have been copied one by one
            ok = ok or st.env.get(('v', f[1][1], f[1][2])) == val
        if ('had',) not in st.flags:
            ok = ok or strip_old(val)[0] == 'dflt'
        if ok:
            st.flags[('deps',)] = val
            st.flags[('grp',)] = 1

    def call(self, eng, st, fr, node, ci):
        k, it = self.cur(st)
        if it is None:
            return
        elem = strip_old(it[1])
        l = strip_old(ci.rloc if ci.rloc is not None else ci.recv) if ci.recv is not None else None
        if l is None:
            return
        mine = l == elem[1] or ('list',) in st.flags and l == strip_old(st.flags[('list',)])
        if ci.short in SHRINK and mine and it[0] == 's':
            st.flags[('gone',)] = 1
        elif ci.short in SHRINK and mine:
            self.rep.bad('C11.keep', fr.fn.short, node.line, 'a dependent stays', 'a dependent that is not .SYNC is removed', st, file=fr.fn.file)
        if grow_call(ci) and any(strip_old(a) == elem for a in ci.args) and l != elem[1] and not mentions_field(l, SYNC):
            # the dependents are copied one by one
            if it[0] == 'd':
                st.flags[('copied',)] = 1
                if ci.rloc is not None and ci.rloc[0] == 'loc':
                    st.flags[('seen', ci.rloc)] = 1
            else:
                st.flags[('gone',)] = 0
        if grow_call(ci) and mentions_field(l, SYNC) and it[0] == 'd':
            key = None
            for y in subterms(l):
                if y[0] in ('elem', 'm', 'key'):
                    if contains(y, elem):
                        key = True
            if ci.short in ('insert', 'insertMulti') and ci.args and strip_old(ci.args[0]) == elem:
                key = True
            arg = ci.args[-1]
            if key or any(strip_old(y) == elem for y in subterms(l)):
                st.flags[('rec',)] = arg

    def after(self, eng, st, fr, node, ci, res):
        k, it = self.cur(st)
        if ci.short in ('at', 'operator[]', 'value') and ci.recv is not None and res is not None and strip_old(res)[0] == 'elem' and \
                not is_field(ci.recv, SYNC):
            st.flags[('at',)] = ci.rloc if ci.rloc is not None else ci.recv
        if it is not None and it[0] == 's' and ci.short in LISTVIEW and ci.recv is not None and self.cand(st, ci):
            st.flags[('cand',)] = res
        if it is not None and ci.recv is not None and is_field(ci.rloc if ci.rloc is not None else ci.recv, SYNC) and ci.args:
            if strip_old(ci.args[0]) == strip_old(it[1]):
                st.flags[('slot',)] = 1

    def loop(self, eng, st, fr, node, what, lid):
        if what != 'back':
            return
        key = ('it', fr.id, lid)
        it = st.flags.pop(key, None)
        if it is None:
            return
        r = st.flags.pop(('rec',), None)
        if it[0] == 'd':
            st.flags[('had',)] = 1
            d = st.flags.get(('deps',))
            if ('sync',) in st.flags:
                self.rep.check(r is not None and ('slot',) in st.flags, 'C11.record', fr, node, 'each dependent after a .SYNC is recorded to wait',
                               'a dependent after .SYNC is not recorded to wait for those before it', st)
                if r is not None:
                    self.rep.check(d is not None and strip_old(r) == strip_old(d), 'C11.group', fr, node, 'it waits for all dependents before the .SYNC',
                                   'a dependent after .SYNC waits for %s, not for all dependents before it' % show(r), st)
        else:
            g = st.flags.get(('gone',))
            self.rep.check(g == 1 or g is None and ('copied',) in st.flags or g is None and self.copies(fr), 'C11.remove', fr, node, '.SYNC itself is no dependent',
                           '.SYNC is kept as a dependent', st)
            self.rep.check(('grp',) in st.flags, 'C11.group', fr, node, 'at .SYNC, the dependents before it are noted',
                           'at a .SYNC, not all dependents before it are noted to be waited for', st)
        i = st.flags.pop(('idx',), None)
        if i is not None:
            # the value of the index for the next iteration
            new = [v for k, v in st.env.items() if k[0] == 'v' and strip_old(lin(v)[0]) == strip_old(i) and lin(v)[1] >= 0]
            if new and all(n == i or n[0] == 'c' for n in new):
                pass
        for k in ('slot', 'gone', 'grp', 'end', 'cand', 'list', 'at'):
            st.flags.pop((k,), None)

    def copies(self, fr):
        return any(n.op == 'call' and isinstance(n.b, dict) and (n.b.get('f') or '').split('::')[-1] in ('append', 'push_back', 'operator<<', 'operator+=')
                   for n in fr.fn.cfg.nodes)

    def exit(self, eng, st, fr, node, kind, val):
        for key in [k for k in st.flags if k[0] == 'it' and k[1] == fr.id]:
            it = st.flags.pop(key)
            if kind == 'ret' and fr is not None:
                pass
        if fr.parent is None and kind == 'ret' and ('left',) in st.flags:
            pass


class Translate(EachRule):
    """The recorded sync points become dependents of the targets that have to wait."""
    EACH = 'C11.all'
    PER_ELEM = ('found', 'norules', 'added', 'novalue')

    def each_want(self, elem):
        c = strip_old(elem)[1]
        return is_field(c, SYNC) or resname(c) == 'keys' and is_field(c[2], SYNC)

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth, True)
        x = strip_old(x)
        for e in self.each_current(st):
            if callname(x) in ('target', 'dependentTarget') and any(contains(a, self.pos(e)) for a in x[3]):
                if v:
                    st.flags[('found',)] = 1
            for y in subterms(x):
                if y[0] == 'size':
                    tr = st.truth(y)
                    if tr is None:
                        continue
                    if resname(y[1]) == RULESOF:
                        st.flags[('norules',)] = int(not tr)
                    elif contains(y[1], self.pos(e)):
                        st.flags[('novalue',)] = int(not tr)

    def pos(self, e):
        """What identifies the element among the sync points."""
        return e[2] if is_field(e[1], SYNC) else e

    def call(self, eng, st, fr, node, ci):
        if ci.recv is not None and is_field(ci.recv, SYNC) and ci.short in ('begin', 'constBegin', 'cbegin', 'keys', 'isEmpty', 'count', 'size', 'constKeyValueBegin'):
            if ('read',) not in st.flags:
                st.facts.clear()      # nothing that was decided before matters
            st.flags[('read',)] = 1
        if grow_call(ci, DEPS) and self.each_current(st):
            b = recv_base(ci, DEPS)
            for e in self.each_current(st):
                sb = strip_old(b)
                mine = callname(sb) in ('target', 'dependentTarget') and any(contains(a, self.pos(e)) for a in sb[3]) or resname(sb) == 'createTarget' or sb[0] in ('new', 'j')
                val = any(contains(strip_old(a), self.pos(e)) for a in ci.args)
                key = any(strip_old(a)[0] == 'key' or strip_old(a) == e and not is_field(e[1], SYNC) for a in ci.args)
                self.rep.check(mine and val and not key, 'C11.apply', fr, node, 'the target of the sync point is made to depend on those it waits for',
                               'the dependents of a sync point are added to another target, or others are added', st)
                st.flags[('added',)] = 1
        if any(t.name == NS + 'Parser::checkForCycles' for t in ci.targets) or any(t.name.endswith('Parser::preselectInferenceRules') for t in ci.targets):
            self.rep.check(('eachdone',) in [k[:1] for k in st.flags] or ('read',) in st.flags, 'C11.before', fr, node,
                           'sync points are dependents before the graph is examined', 'the targets are examined before sync points are translated into dependents', st)
            return []

    def each_done(self, eng, st, fr, node, elem):
        g = st.flags.get
        ok = g(('added',)) == 1 or g(('found',)) is None and (g(('norules',)) == 1 or g(('novalue',)) == 1)
        ok = ok or g(('novalue',)) == 1
        self.rep.check(ok, 'C11.apply', fr, node, 'every sync point is translated',
                       'a target that has to wait because of .SYNC is not made to depend on those before it', st)


class Order(Rule):
    """The dependents are in the target, and their macros expanded, before sync points are taken from them."""

    def __init__(self, prog, rep, fns):
        Rule.__init__(self, prog, rep)
        self.fns = fns

    def call(self, eng, st, fr, node, ci):
        if grow_call(ci, DEPS):
            st.flags[('grown',)] = 1
            st.flags.pop(('exp',), None)
            st.flags.pop(('done',), None)
        elif ci.has('DescriptionBlock::expandFileNameMacrosForDependents'):
            st.flags[('exp',)] = 1
        elif any(t in self.fns for t in ci.targets):
            lst = [a for a in ci.args if is_field(a, DEPS)]
            self.rep.check(bool(lst) and ('grown',) in st.flags and ('exp',) in st.flags, 'C11.expanded', fr, node,
                           '.SYNC is looked for among the final names of the dependents',
                           'sync points are recorded for names whose macros have not been expanded: no target has such a name', st)
            for a in ci.args:
                s = strip_old(a)
                if s[0] == 'size' and is_field(s[1], DEPS):
                    self.rep.check(a != st.flags.get(('late',)), 'C11.loop', fr, node, 'the search for .SYNC starts with the first new dependent',
                                   'the search for .SYNC starts behind the new dependents', st)
            st.flags[('done',)] = 1
            st.flags.pop(('grown',), None)

    def after(self, eng, st, fr, node, ci, res):
        if ci.short in ('count', 'size', 'length') and ci.recv is not None and is_field(ci.recv, DEPS):
            if ('grown',) in st.flags:
                st.flags[('late',)] = res

    def loop(self, eng, st, fr, node, what, lid):
        if what == 'back':
            self.end(st, fr, node)

    def end(self, st, fr, node):
        if ('grown',) in st.flags:
            self.rep.bad('C11.expanded', fr.fn.short, node.line if node else fr.fn.line, 'search', '.SYNC is not looked for among dependents that are added', st, file=fr.fn.file)
            st.flags.pop(('grown',), None)
        st.flags.pop(('late',), None)


@check('C11')
def c11(prog, rep):
    rep.rule('C11.loop', 'every dependent of a description block is examined for .SYNC')
    rep.rule('C11.record', 'every dependent after a .SYNC is recorded to wait')
    rep.rule('C11.group', 'what it waits for is everything before the last .SYNC')
    rep.rule('C11.remove', '.SYNC itself is removed from the dependents')
    rep.rule('C11.keep', 'nothing else is removed')
    rep.rule('C11.expanded', 'names are recorded after their macros were expanded')
    rep.rule('C11.all', 'the translation reaches every sync point')
    rep.rule('C11.apply', 'each sync point adds dependents to its target, if there is one or an inference rule could make one')
    rep.rule('C11.before', 'sync points are translated before the targets are examined')
    fns = []
    for f in prog.methods('Parser'):
        for n in f.cfg.nodes:
            if n.op == 'call' and isinstance(n.b, dict) and (n.b.get('o') or {}).get('n') == NS + SYNC and \
                    (n.b.get('f') or '').split('::')[-1] in ('operator[]', 'insert', 'insertMulti'):
                fns.append(f)
                break
    if not fns:
        raise AnalysisError('no function records sync points')
    for f in fns:
        run_roots(prog, rep, Collect(prog, rep), [f], events=field_events(SYNC), small=0, keepfacts=lambda t: False)
    rep.require('C11.record', 1)
    for f in fns:
        root = set(prog.fns('Parser::parseDescriptionBlock'))
        if f in root:
            continue
        for r in root:
            run_roots(prog, rep, Order(prog, rep, set(fns)), [r], events=lambda n: False, noinline=(f.name, 'DescriptionBlock::expandFileNameMacrosForDependents', 'Makefile::target'),
                      keepfacts=lambda t: False, heapkeep=())
    run_roots(prog, rep, Translate(prog, rep), ['Parser::apply'], events=field_events(SYNC), inline=('Parser::dependentTarget',),
              noinline=('Parser::checkForCycles', 'Makefile::target', 'Makefile::dirPath', 'Parser::parseDotDirective', 'Parser::parseInferenceRule',
                        'Parser::parseDescriptionBlock', 'Parser::' + RULESOF, 'Parser::createTarget') + tuple(f.name for f in fns),
              heapkeep=(), keepfacts=lambda t: mentions_field(t, SYNC), limit=20)
    rep.require('C11.apply', 1)
    rep.require('C11.before', 1)
