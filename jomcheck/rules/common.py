"""Helpers shared by the rules."""
from ..prog import walk, NS
from ..engine import (Engine, Monitor, State, show, contains, strip_old, cmp_term, TRUE, FALSE, TOP, atoms, vs_has,
                      vs_meet, distinct)
from ..extract import AnalysisError


def field_events(*names):
    full = {n if n.startswith(NS) else NS + n for n in names}
    shorts = tuple(full)

    def ev(node):
        for e in (node.a, node.b):
            for x in walk(e):
                if x.get('k') == 'mem' and x.get('n') in full:
                    return True
        return False
    return ev


def call_events(*names):
    full = set(names) | {NS + n for n in names}

    def ev(node):
        if node.op in ('call', 'new'):
            e = node.b
            if e.get('f') in full:
                return True
            i = e.get('i')
            if isinstance(i, dict) and i.get('f') in full:
                return True
        return False
    return ev


def either(*evs):
    return lambda n: any(e(n) for e in evs)


def origin_field(t):
    """The field a term ultimately reads, e.g. for elements: the field of the container."""
    t = strip_old(t)
    while isinstance(t, tuple) and t:
        if t[0] in ('elem', 'iter', 'size', 'iterend', 'key'):
            t = t[1]
            continue
        if t[0] == 'f':
            return t[2]
        return None
    return None


def base_of(t):
    t = strip_old(t)
    while isinstance(t, tuple) and t and t[0] in ('elem', 'iter', 'size', 'iterend', 'key'):
        t = t[1]
    return t[1] if isinstance(t, tuple) and t and t[0] == 'f' else None


def F(cls_field):
    return NS + cls_field


def is_field(t, name):
    t = strip_old(t)
    return isinstance(t, tuple) and len(t) > 2 and t[0] == 'f' and t[2] == NS + name


def same(a, b):
    return strip_old(a) == strip_old(b)


def mentions_field(t, name):
    n = name if name.startswith(NS) else NS + name
    t = strip_old(t)
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if len(x) > 2 and x[0] == 'f' and x[2] == n:
                return True
            st.extend(y for y in x if isinstance(y, tuple))
    return False


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, tuple))


def callname(t):
    """Short name of the function of a pure call term, else ''."""
    if isinstance(t, tuple) and t and t[0] == 'm':
        return t[1].split('(')[0].split('::')[-1]
    return ''


def resname(t):
    """Short name of the function whose result a term is, else ''."""
    t = strip_old(t)
    if isinstance(t, tuple) and t and t[0] == 'r' and len(t) > 3 and isinstance(t[3], str) and t[3].endswith('()'):
        return t[3][:-2].split('::')[-1]
    return callname(t)


def method(ci, *names):
    return any(ci.name == n or ci.name == NS + n for n in names)


class Rule(Monitor):
    def __init__(self, prog, rep):
        self.p = prog
        self.rep = rep


# ---------------------------------------------------------------- loops over all elements of a container
def loopctx(fr, node):
    """(frame, loop id) of the innermost loop around a node, also through inlined helpers."""
    while fr is not None and node is not None:
        if node.loop is not None:
            return fr, node.loop
        node, fr = fr.node, fr.parent
    return None, None


def loop_complete(loop):
    """Does the loop's own condition let it reach every element? (True, '') or (False, reason)."""
    if loop.kind == 'foreach':
        return True, ''
    c = loop.cond
    if c is None:
        return True, ''
    pre = post = False
    for x in walk(c):
        if x.get('k') == 'un' and x.get('op') == '--':
            pre = True
        if x.get('k') == 'un' and x.get('op') == 'p--':
            post = True
        if x.get('k') == 'call' and x.get('op') == '--':
            pre = True
    rev = pre or post
    if loop.init is not None:
        for x in walk(loop.init):
            if x.get('op') in ('++', 'p++') and x.get('k') in ('un', 'call'):
                return False, 'it does not start at the first'
            if x.get('k') == 'bin' and x.get('op') == '-':
                rev = True
        if not rev:
            for x in walk(loop.init):
                if x.get('k') == 'int' and x.get('v') not in (0,) and x.get('t') != 'b':
                    return False, 'it starts at %s' % x.get('v')
    for x in walk(c):
        k = x.get('k')
        if k == 'bin' and x.get('op') in ('&&', '||'):
            return False, 'its condition has a further term'
        if k == 'bin' and x.get('op') == '-' and not rev:
            return False, 'it stops early'
        if k == 'int' and x.get('v') not in (0, -1) and x.get('t') != 'b' and not (rev and x.get('v') in (0, 1)):
            return False, 'its bound is changed by %s' % x.get('v')
        if k == 'bin' and x.get('op') in CMPS and (pre or post) and x['b'].get('k') in ('int', 'un'):
            v = intval(x['b'])
            ok = {'>=': 0, '>': -1, '!=': -1} if pre else {'>=': 1, '>': 0, '!=': 0}
            if v is None or x['op'] not in ok or ok[x['op']] < v:
                return False, 'it stops before the first element'
        if k == 'bin' and x.get('op') in ('>', '!=') and rev and not (pre or post) and intval(x['b']) == 0 and loop.init is not None and \
                any(y.get('k') == 'bin' and y.get('op') == '-' and intval(y['b']) == 1 for y in walk(loop.init)):
            return False, 'it stops before the first element'
    return True, ''


CMPS = ('<', '>', '<=', '>=', '==', '!=')


def intval(e):
    if e.get('k') == 'int':
        return e.get('v')
    if e.get('k') == 'un' and e.get('op') == '-' and e['e'].get('k') == 'int':
        return -e['e']['v']
    return None


class EachRule(Rule):
    """Every element of some container must be treated in each iteration; leaving early is a violation.

    Subclasses define each_want(elem), each_done(...) and optionally each_left(...)."""
    EACH = 'R'

    def each_want(self, elem):
        return False

    def each_done(self, eng, st, fr, node, elem):
        pass

    def each_left(self, eng, st, fr, elem):
        """May the function be left with this element's iteration unfinished?"""
        return False

    def each_name(self, elem):
        return show(elem[1])

    def elem(self, eng, st, fr, node, elem):
        e = elem[1] if elem[0] == 'old' else elem
        if e[0] != 'elem' or not self.each_want(e):
            return
        f, lid = loopctx(fr, node)
        if f is None:
            return
        loop = f.fn.cfg.loops[lid]
        ok, why = loop_complete(loop)
        self.rep.check(ok, self.EACH, f, node, 'loop over %s reaches every element' % self.each_name(e),
                       'the loop over %s does not reach every element: %s' % (show(e[1]), why), st)
        key = ('each', f.id, lid)
        cur = st.flags.get(key)
        if cur is None:
            st.flags[key] = elem
            self.each_start(eng, st, fr, node, elem)

    def each_start(self, eng, st, fr, node, elem):
        pass

    PER_ELEM = ()

    def each_reset(self, st):
        for k in [k for k in st.flags if k[0] in self.PER_ELEM]:
            del st.flags[k]

    def each_current(self, st):
        return [strip_old(v) for k, v in st.flags.items() if k[0] == 'each']

    def loop(self, eng, st, fr, node, what, lid):
        if what != 'back':
            return
        key = ('each', fr.id, lid)
        e = st.flags.pop(key, None)
        if e is not None:
            self.each_done(eng, st, fr, node, e)
            self.each_reset(st)
            st.flags[('eachdone', fr.id, lid)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        for key in [k for k in st.flags if k[0] in ('each', 'eachdone') and k[1] == fr.id]:
            v = st.flags.pop(key)
            if key[0] == 'each' and kind == 'ret':
                ok = self.each_left(eng, st, fr, v)
                self.rep.check(ok, self.EACH, fr, None, 'loop over %s is not left early' % self.each_name(v[1] if v[0] == 'old' else v),
                               'the loop over %s is left before its last element' % show((v[1] if v[0] == 'old' else v)[1]), st)


def run_roots(prog, rep, mon, names, **kw):
    """Runs the engine over the named functions; returns the engine."""
    eng = Engine(prog, mon, **kw)
    for n in names:
        fns = [n] if not isinstance(n, str) else prog.fns(n)
        if not fns:
            raise AnalysisError('function %s not found' % n)
        for f in fns:
            mon.root = f
            eng.run(f)
            rep.absorb(eng, f.short)
    return eng


GROW = Engine.GROW
SHRINK = {'remove', 'removeAll', 'removeOne', 'removeAt', 'removeFirst', 'removeLast', 'takeFirst', 'takeLast', 'takeAt',
          'take', 'clear', 'erase', 'pop', 'pop_front', 'pop_back', 'dequeue', 'resize', 'removeIf', 'swap', 'truncate', 'chop'}


def grow_call(ci, field=None):
    """(value args) if the call adds to a container (of the given field)."""
    if ci.recv is None or ci.short not in GROW or not ci.args or ci.e.get('const'):
        return False
    return field is None or is_container(ci, field)


def is_container(ci, field):
    l = ci.rloc if ci.rloc is not None else ci.recv
    return is_field(l, field) or is_field(ci.recv, field)


def recv_base(ci, field):
    """The object whose container field is called."""
    for l in (ci.rloc, ci.recv):
        if l is not None:
            s = strip_old(l)
            if isinstance(s, tuple) and s[0] == 'f' and s[2] == NS + field:
                return l[1] if l[0] == 'f' else s[1]
    return None


def truths(t, truth, raw=False):
    """The elementary truths a decided condition implies: (term, bool) without negations and comparisons with 0 or 1."""
    if not raw:
        t = strip_old(t)
    while isinstance(t, tuple) and t and t[0] == 'op':
        if t[1] == '!' and len(t) == 3:
            t, truth = t[2], not truth
        elif t[1] == '==' and len(t) == 4 and (t[2][0] == 'c') != (t[3][0] == 'c'):
            c, x = (t[2], t[3]) if t[2][0] == 'c' else (t[3], t[2])
            if c[1] == 0:
                t, truth = x, not truth
            elif c[1] == 1 and truth:
                t, truth = x, truth
            else:
                break
        else:
            break
    return t, truth


def lin(t):
    """A term as (base, offset)."""
    k = 0
    while isinstance(t, tuple) and t and t[0] == 'op' and len(t) == 4 and t[1] in ('+', '-'):
        if t[3][0] == 'c':
            k += t[3][1] if t[1] == '+' else -t[3][1]
            t = t[2]
        elif t[2][0] == 'c' and t[1] == '+':
            k += t[2][1]
            t = t[3]
        else:
            break
    return t, k


def reaches(prog, goal, cut=()):
    """Functions from which one of the goal functions is called, not through the cut: [(function, call node, callee)]."""
    goal = set(goal)
    cut = set(cut)
    seen = set(goal)
    todo = list(goal)
    edges = []
    callers = {}
    for f in prog.funcs.values():
        for n in f.cfg.nodes:
            if n.op in ('call', 'new'):
                for e in (n.b, n.b.get('i') if isinstance(n.b.get('i'), dict) else None):
                    if e is None:
                        continue
                    for t in prog.targets(e):
                        callers.setdefault(t, []).append((f, n))
    while todo:
        g = todo.pop()
        for f, n in callers.get(g, ()):
            edges.append((f, n, g))
            if f not in seen and f not in cut:
                seen.add(f)
                todo.append(f)
    return edges


def forget(st, fr, lid, keep=()):
    """Forgets what variables of a frame hold and what is known about them (at the end of an iteration, against explosion)."""
    for k, v in list(st.env.items()):
        if len(k) > 2 and k[0] == 'v' and k[1] == fr.id and v[0] not in ('p', 'this') and k[2] not in keep:
            if v[0] == 'ref' and v[1][0] == 'loc' and v[1][1] != fr.id:
                # a parameter that refers to a variable of the caller
                o = ('v', v[1][1], v[1][2])
                if o in st.env and st.env[o][0] not in ('p', 'this', 'ref'):
                    st.env[o] = ('r', fr.id, -1 - lid, 'var%s' % (o[2],))
                continue
            st.env[k] = ('r', fr.id, -1 - lid, 'var%s' % (k[2],))
        elif len(k) > 1 and k[0] == 't' and k[1] == fr.id:
            del st.env[k]
    st.facts.clear()
    st.heap.clear()
