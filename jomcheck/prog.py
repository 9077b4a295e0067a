"""Program database: functions with control flow graphs, classes, connections, mod sets."""
from .extract import extract, AnalysisError

NS = 'NMakeFile::'

MUTATING_STREAM_OPS = {'<<', '+=', '-=', '|=', '&=', '>>'}


class Node(object):
    __slots__ = ('id', 'op', 'line', 'a', 'b', 'c', 'succ', 'handlers', 'live', 'own', 'loop')

    def __init__(self, nid, op, line, a=None, b=None, c=None, handlers=None):
        self.id = nid
        self.op = op
        self.line = line
        self.a = a
        self.b = b
        self.c = c
        self.succ = []
        self.handlers = handlers
        self.live = None
        self.own = None
        self.loop = None

    def __repr__(self):
        return '<%d %s l%s a=%r ->%s>' % (self.id, self.op, self.line, self.a, self.succ)


class Func(object):
    def __init__(self, d, idx, unit):
        self.d = d
        self.idx = idx
        self.unit = unit
        self.name = d['f']
        self.key = d['u']
        self.file = d['file']
        self.line = d['line']
        self.cls = d.get('cls')
        self.params = d['params']
        self.kind = d['kind']
        self.const = bool(d.get('const'))
        self._cfg = None
        self.ctor = self.cls is not None and self.name == self.cls + '::' + self.cls.split('::')[-1]

    @property
    def short(self):
        return self.name[len(NS):] if self.name.startswith(NS) else self.name

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = Lower(self).run()
        return self._cfg

    def __repr__(self):
        return 'Func(%s)' % self.key


class Loop(object):
    """A loop of the source; `container` is the AST of what it iterates, if known."""
    def __init__(self, lid, kind, line):
        self.id = lid
        self.kind = kind
        self.line = line
        self.container = None
        self.cond = None
        self.init = None
        self.inc = None
        self.var = None


class CFG(object):
    def __init__(self):
        self.nodes = []
        self.entry = None
        self.exit = None
        self.loops = {}
        self.calls = []


def walk(e):
    """All dict nodes of an AST."""
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            for v in x.values():
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            st.extend(x)


def is_const_false(e):
    return isinstance(e, dict) and e.get('k') == 'int' and e.get('v') == 0


class Lower(object):
    """AST -> control flow graph of call/assign/branch nodes (calls in evaluation order)."""

    def __init__(self, fn):
        self.fn = fn
        self.g = CFG()
        self.tmp = 0
        self.handlers = None
        self.cur = None
        self.brk = []
        self.cont = []
        self.scopes = []
        self.labels = {}
        self.gotos = []
        self.line = fn.line
        self.nloop = 0
        self.loopstack = []

    # --- building
    def new(self, op, a=None, b=None, c=None, line=None):
        n = Node(len(self.g.nodes), op, line or self.line, a, b, c, self.handlers)
        n.loop = self.loopstack[-1] if self.loopstack else None
        self.g.nodes.append(n)
        return n

    def emit(self, op, a=None, b=None, c=None, line=None):
        n = self.new(op, a, b, c, line)
        if self.cur is not None:
            for (p, slot) in self.cur:
                self.link(p, slot, n.id)
        self.cur = [(n, 0)]
        return n

    def link(self, p, slot, target):
        while len(p.succ) <= slot:
            p.succ.append(None)
        p.succ[slot] = target

    def join(self, *lists):
        r = []
        for l in lists:
            if l:
                r.extend(l)
        return r

    def run(self):
        g = self.g
        ent = self.emit('entry')
        g.entry = ent.id
        self.scopes = [[]]
        d = self.fn.d
        for i in d.get('inits', []):
            if i.get('l'):
                self.line = i['l']
            e = i.get('e')
            if i.get('n'):
                if e is not None:
                    v = self.L(e)
                    self.emit('assign', {'k': 'mem', 'b': {'k': 'this'}, 'n': i['n'], 't': i.get('t')}, v, 'init')
            elif e is not None:
                self.L(e)
        self.S(d['body'])
        self.endscope()
        if self.cur:
            self.emit('ret', None, line=d.get('end'))
        ex = self.new('exit', line=d.get('end'))
        g.exit = ex.id
        for n in g.nodes:
            if n.op == 'ret':
                n.succ = [ex.id]
            if n.op == 'goto':
                t = self.labels.get(n.a)
                n.succ = [t] if t is not None else [ex.id]
            # unfinished slots
            n.succ = [s if s is not None else ex.id for s in n.succ]
        self.liveness()
        return g

    def dead(self):
        return not self.cur

    def newtmp(self):
        self.tmp += 1
        return {'k': 'tmp', 'id': self.tmp}

    # --- expressions
    def branchy(self, e):
        """Does e contain short circuit operators or ?: outside lambdas?"""
        st = [e]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get('k') == 'cond' or (x.get('k') == 'bin' and x.get('op') in ('&&', '||')):
                    return True
                if x.get('k') == 'lambda':
                    continue
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        st.append(v)
            elif isinstance(x, list):
                st.extend(x)
        return False

    def L(self, e):
        """Lowers e to a pure expression (tmps, vars, members, constants)."""
        if e is None:
            return {'k': 'unk'}
        k = e['k']
        if e.get('l') and not e.get('xf') and not e.get('def'):
            self.line = e['l']
        if k in ('int', 'str', 'this', 'var', 'fref', 'tmp', 'lambda', 'bind'):
            if k == 'bind' and e.get('e'):
                return self.L(e['e'])
            return e
        if k == 'mem':
            r = dict(e)
            r['b'] = self.L(e['b'])
            return r
        if k == 'cond' or (k == 'bin' and e['op'] in ('&&', '||')):
            t = self.newtmp()
            tl, fl = self.C(e['c'] if k == 'cond' else e)
            self.cur = tl
            if self.cur:
                self.emit('assign', t, self.L(e['a']) if k == 'cond' else {'k': 'int', 'v': 1, 't': 'b'}, 'tmp')
            a = self.cur
            self.cur = fl
            if self.cur:
                self.emit('assign', t, self.L(e['b']) if k == 'cond' else {'k': 'int', 'v': 0, 't': 'b'}, 'tmp')
            self.cur = self.join(a, self.cur)
            return t
        if k == 'call':
            r = dict(e)
            if e.get('o') is not None:
                r['o'] = self.L(e['o'])
            if e.get('fe') is not None:
                r['fe'] = self.L(e['fe'])
            line = e.get('l') if not e.get('xf') else self.line
            r['a'] = [self.L(x) for x in e['a']]
            if e.get('op') in ('=',) and e.get('o') is not None:
                # class type assignment
                self.emit('assign', r['o'], r['a'][0], 'opassign', line=line)
                self.g.nodes[-1].own = e
                return r['o']
            t = self.newtmp()
            n = self.emit('call', t, r, line=line or self.line)
            self.g.calls.append(n)
            if e.get('noret'):
                self.cur = []
            return t
        if k == 'ctor':
            r = dict(e)
            r['a'] = [self.L(x) for x in e['a']]
            if e.get('own') and not (e.get('cp') or e.get('mv')):
                t = self.newtmp()
                n = self.emit('call', t, r, line=self.line)
                self.g.calls.append(n)
                return t
            return r
        if k == 'new':
            r = dict(e)
            if e.get('i'):
                i = e['i']
                if i['k'] == 'ctor':
                    i = dict(i)
                    i['a'] = [self.L(x) for x in i['a']]
                    r['i'] = i
                else:
                    r['i'] = self.L(i)
            t = self.newtmp()
            n = self.emit('new', t, r, line=e.get('l'))
            self.g.calls.append(n)
            return t
        if k == 'delete':
            v = self.L(e['e'])
            n = self.emit('delete', v, e, line=e.get('l'))
            self.g.calls.append(n)
            return {'k': 'unk'}
        if k == 'asg':
            rhs = self.L(e['b'])
            lhs = self.L(e['a'])
            self.emit('assign', lhs, rhs, e['op'], line=e.get('l'))
            self.g.nodes[-1].own = e
            return lhs
        if k == 'un':
            op = e['op']
            if op in ('++', '--', 'p++', 'p--'):
                x = self.L(e['e'])
                if op[0] == 'p':
                    t = self.newtmp()
                    self.emit('assign', t, x, 'tmp', line=e.get('l'))
                    self.emit('assign', x, {'k': 'int', 'v': 1}, op[-1] + '=', line=e.get('l'))
                    return t
                self.emit('assign', x, {'k': 'int', 'v': 1}, op[-1] + '=', line=e.get('l'))
                return x
            r = dict(e)
            r['e'] = self.L(e['e'])
            return r
        if k == 'bin':
            if e['op'] == ',':
                self.L(e['a'])
                return self.L(e['b'])
            r = dict(e)
            r['a'] = self.L(e['a'])
            r['b'] = self.L(e['b'])
            return r
        if k == 'cast':
            r = dict(e)
            r['e'] = self.L(e['e'])
            return r
        if k == 'sub':
            r = dict(e)
            r['a'] = self.L(e['a'])
            r['b'] = self.L(e['b'])
            return r
        if k == 'ilist' or k == 'unk':
            r = dict(e)
            r['a'] = [self.L(x) for x in e.get('a', [])]
            return r
        if k == 'throw':
            v = self.L(e['e']) if e.get('e') else None
            n = self.emit('throw', v, e, line=e.get('l'))
            self.g.calls.append(n)
            self.cur = []
            return {'k': 'unk'}
        if k == 'stmtexpr':
            self.S(e['b'])
            return {'k': 'unk'}
        return {'k': 'unk'}

    def C(self, e):
        """Lowers a condition; returns (true exits, false exits)."""
        k = e['k']
        if k == 'bin' and e['op'] == '&&':
            t1, f1 = self.C(e['a'])
            self.cur = t1
            t2, f2 = self.C(e['b']) if self.cur else ([], [])
            return t2, self.join(f1, f2)
        if k == 'bin' and e['op'] == '||':
            t1, f1 = self.C(e['a'])
            self.cur = f1
            t2, f2 = self.C(e['b']) if self.cur else ([], [])
            return self.join(t1, t2), f2
        if k == 'un' and e['op'] == '!':
            t, f = self.C(e['e'])
            return f, t
        if k == 'cast' and e.get('t') == 'b':
            return self.C(e['e'])
        if k == 'call' and e.get('op') == '!' and e.get('own') is None:
            x = e.get('o') or e['a'][0]
            t, f = self.C(x)
            return f, t
        if k == 'int':
            if e['v']:
                c = self.cur
                self.cur = []
                return c, []
            c = self.cur
            self.cur = []
            return [], c
        if k == 'cond':
            t, f = self.C(e['c'])
            self.cur = t
            t1, f1 = self.C(e['a']) if self.cur else ([], [])
            self.cur = f
            t2, f2 = self.C(e['b']) if self.cur else ([], [])
            return self.join(t1, t2), self.join(f1, f2)
        v = self.L(e)
        if not self.cur:
            return [], []
        n = self.emit('branch', v, line=self.line)
        self.cur = []
        return [(n, 0)], [(n, 1)]

    # --- statements
    def endscope(self):
        vs = self.scopes.pop()
        if self.cur:
            for v in reversed(vs):
                self.emit('dtor', v)

    def unwind(self, depth):
        for sc in reversed(self.scopes[depth:]):
            for v in reversed(sc):
                self.emit('dtor', v)

    def D(self, v):
        if v.get('l'):
            self.line = v['l']
        if v.get('binds'):
            i = self.L(v['i']) if v.get('i') else {'k': 'unk'}
            self.emit('decl', v, i)
            return
        if v.get('static'):
            if v.get('i'):
                i = self.L(v['i'])
                self.emit('sdecl', v, i)
            return
        i = self.L(v['i']) if v.get('i') is not None else None
        self.emit('decl', v, i)
        if v.get('rec') and not v.get('ref'):
            self.scopes[-1].append(v)

    def S(self, s):
        if s is None:
            return
        depth = len(self.loopstack)
        self.S1(s)
        del self.loopstack[depth:]

    def S1(self, s):
        if not self.cur and s['k'] not in ('block', 'case', 'default', 'label', 'switch', 'decls'):
            # unreachable, unless it contains labels
            if not any(x.get('k') in ('label', 'case', 'default') for x in walk(s)):
                return
        k = s['k']
        if s.get('l') and not s.get('xf'):
            self.line = s['l']
        if k == 'block':
            self.scopes.append([])
            for x in s['b']:
                self.S(x)
            self.endscope()
        elif k == 'expr':
            self.L(s['e'])
        elif k == 'decls':
            for v in s['d']:
                self.D(v)
        elif k == 'null' or k == 'unkstmt':
            pass
        elif k == 'if':
            self.scopes.append([])
            if s.get('init'):
                self.S(s['init'])
            if s.get('cv'):
                self.D(s['cv'])
            t, f = self.C(s['c'])
            self.cur = t
            self.S(s['a'])
            a = self.cur
            self.cur = f
            if s.get('b'):
                self.S(s['b'])
            self.cur = self.join(a, self.cur)
            self.endscope()
        elif k == 'while':
            lp = self.loop('while', s)
            self.scopes.append([])
            head = self.emit('loophead', lp.id)
            if s.get('cv'):
                self.D(s['cv'])
            lp.cond = s['c']
            t, f = self.C(s['c'])
            self.cur = t
            if self.cur:
                self.emit('loopiter', lp.id)
            self.brk.append(([], len(self.scopes)))
            self.cont.append(([], len(self.scopes)))
            self.S(s['b'])
            self.cur = self.join(self.cur, self.cont.pop()[0])
            if self.cur:
                self.emit('loopback', lp.id)
                for (p, sl) in self.cur:
                    self.link(p, sl, head.id)
            self.cur = self.join(f, self.brk.pop()[0])
            self.endscope()
        elif k == 'do':
            lp = self.loop('do', s)
            head = self.emit('loophead', lp.id)
            self.emit('loopiter', lp.id)
            self.brk.append(([], len(self.scopes)))
            self.cont.append(([], len(self.scopes)))
            self.S(s['b'])
            self.cur = self.join(self.cur, self.cont.pop()[0])
            f = []
            if self.cur:
                t, f = self.C(s['c'])
                self.cur = t
                if self.cur:
                    self.emit('loopback', lp.id)
                    for (p, sl) in self.cur:
                        self.link(p, sl, head.id)
            self.cur = self.join(f, self.brk.pop()[0])
        elif k == 'for':
            if self.qforeach(s):
                return
            lp = self.loop('for', s)
            self.scopes.append([])
            if s.get('init'):
                self.S(s['init'])
            lp.init, lp.cond, lp.inc = s.get('init'), s.get('c'), s.get('inc')
            head = self.emit('loophead', lp.id)
            if s.get('cv'):
                self.D(s['cv'])
            if s.get('c'):
                t, f = self.C(s['c'])
            else:
                t, f = self.cur, []
            self.cur = t
            if self.cur:
                self.emit('loopiter', lp.id)
            self.brk.append(([], len(self.scopes)))
            self.cont.append(([], len(self.scopes)))
            self.S(s['b'])
            self.cur = self.join(self.cur, self.cont.pop()[0])
            if self.cur:
                n = self.emit('loopback', lp.id)
                if s.get('inc'):
                    self.L(s['inc'])
                for (p, sl) in self.cur:
                    self.link(p, sl, head.id)
            self.cur = self.join(f, self.brk.pop()[0])
            self.endscope()
        elif k == 'rfor':
            self.foreach(s, s['r'], s['v'], s['b'], False)
        elif k == 'switch':
            self.switch(s)
        elif k in ('case', 'default'):
            # only reached through switch()
            self.S(s['b'])
        elif k == 'break':
            lst, depth = self.brk[-1]
            self.unwind(depth)
            lst.extend(self.cur)
            self.cur = []
        elif k == 'continue':
            lst, depth = self.cont[-1]
            self.unwind(depth)
            lst.extend(self.cur)
            self.cur = []
        elif k == 'return':
            v = None
            if s.get('e'):
                v = self.L(s['e'])
            if self.cur:
                # values are computed before the destructors run
                self.emit('retval', v, line=s['l'])
                self.unwind(0)
                self.emit('ret', True, line=s['l'])
            self.cur = []
        elif k == 'try':
            saved = self.handlers
            # handler entries
            hs = []
            for h in s['h']:
                n = self.new('catch', h.get('v'), h.get('c'), line=h['l'])
                hs.append((h.get('c'), n.id))
            self.handlers = (tuple(hs), saved)
            self.S(s['b'])
            after = self.cur
            self.handlers = saved
            for h, (c, nid) in zip(s['h'], hs):
                n = self.g.nodes[nid]
                n.handlers = saved
                self.cur = [(n, 0)]
                self.S(h['b'])
                after = self.join(after, self.cur)
            self.cur = after
        elif k == 'goto':
            self.emit('goto', s['n'])
            self.cur = []
        elif k == 'label':
            n = self.emit('label', s['n'])
            self.labels[s['n']] = n.id
            self.S(s['b'])
        else:
            raise AnalysisError('unknown statement ' + k)

    def loop(self, kind, s):
        self.nloop += 1
        lp = Loop(self.nloop, kind, s.get('l'))
        lp.parent = self.loopstack[-1] if self.loopstack else None
        self.g.loops[lp.id] = lp
        self.loopstack.append(lp.id)
        return lp

    def qforeach(self, s):
        """for (auto _container_ = QtPrivate::qMakeForeachContainer(X); ...) if (V = *i; false) {} else BODY"""
        init = s.get('init')
        if not init or init['k'] != 'decls' or len(init['d']) != 1:
            return False
        d = init['d'][0]
        if 'QForeachContainer' not in d.get('ty', ''):
            return False
        calls = [x for x in walk(d.get('i')) if x.get('k') == 'call' and 'qMakeForeachContainer' in x.get('f', '')]
        if calls:
            cont = calls[0]['a'][0]
        else:
            return False
        b = s['b']
        while b['k'] == 'block' and len(b['b']) == 1:
            b = b['b'][0]
        if b['k'] == 'if' and b.get('init') and is_const_false(b['c']):
            ini = b['init']
            if ini['k'] == 'decls':
                var = ini['d'][0]
            else:
                var = ini['e']  # assignment to an existing variable
            body = b.get('b')
            if var.get('k') == 'asg':
                var = var['a']
            self.foreach(s, cont, var, body, True)
            return True
        return False

    def foreach(self, s, cont, var, body, copy):
        lp = self.loop('foreach', s)
        lp.container = cont
        lp.var = var
        self.scopes.append([])
        c = self.L(cont)
        ct = self.newtmp()
        n0 = self.emit('feinit', ct, c, lp.id, line=s['l'])   # succ0: iterate, succ1: empty
        f = [(n0, 1)]
        self.cur = [(n0, 0)]
        bind = self.emit('febind', var, ct, lp.id, line=s['l'])
        if var.get('rec') and not var.get('ref'):
            self.scopes[-1].append(var)
        self.emit('loopiter', lp.id)
        self.brk.append(([], len(self.scopes) - 1))
        self.cont.append(([], len(self.scopes)))
        self.S(body)
        self.cur = self.join(self.cur, self.cont.pop()[0])
        if self.cur:
            self.emit('loopback', lp.id)
            nx = self.emit('fenext', ct, None, lp.id, line=s['l'])  # succ0: again, succ1: done
            self.link(nx, 0, bind.id)
            f.append((nx, 1))
        self.cur = self.join(f, self.brk.pop()[0])
        # the loop variable's destructor is irrelevant at loop end
        self.scopes.pop()

    def switch(self, s):
        self.scopes.append([])
        if s.get('init'):
            self.S(s['init'])
        if s.get('cv'):
            self.D(s['cv'])
        c = self.L(s['c'])
        cases = []

        # collect the case labels, keep the statement order
        stmts = []

        def flat(x):
            while x is not None and x['k'] in ('case', 'default'):
                stmts.append(('label', x))
                x = x['b']
            if x is not None:
                stmts.append(('stmt', x))

        body = s['b']
        for x in (body['b'] if body['k'] == 'block' else [body]):
            flat(x)
        self.scopes.append([])
        start = self.cur
        default = None
        # dispatch chain
        entries = {}
        cur = start
        order = []
        for i, (kind, x) in enumerate(stmts):
            if kind == 'label':
                if x['k'] == 'default':
                    default = i
                else:
                    self.cur = cur
                    cond = {'k': 'bin', 'op': '==', 'a': c, 'b': self.L(x['v']), 't': 'b', 'case': True}
                    if x.get('v2'):
                        cond = {'k': 'unk', 'a': [c]}
                    n = self.emit('branch', cond, line=x['l'])
                    entries[i] = [(n, 0)]
                    cur = [(n, 1)]
        if default is not None:
            entries[default] = cur
            out = []
        else:
            out = cur
        self.brk.append(([], len(self.scopes)))
        self.cur = []
        for i, (kind, x) in enumerate(stmts):
            if kind == 'label':
                self.cur = self.join(self.cur, entries.get(i))
            else:
                self.S(x)
        self.endscope()
        self.cur = self.join(self.cur, out, self.brk.pop()[0])
        self.endscope()

    # --- liveness of locals and temporaries
    def liveness(self):
        g = self.g
        uses = []
        defs = []

        def ids(e):
            r = set()
            for x in walk(e):
                k = x.get('k')
                if k == 'var' and x.get('g') in ('local', 'param', None):
                    r.add(('v', x['id']))
                elif k == 'tmp':
                    r.add(('t', x['id']))
                elif k == 'lambda':
                    for c in x.get('caps', []):
                        if 'id' in c:
                            r.add(('v', c['id']))
            return r

        for n in g.nodes:
            u = set()
            d = set()
            if n.op == 'assign':
                u |= ids(n.b)
                if n.a['k'] == 'tmp' and n.c == 'tmp':
                    d.add(('t', n.a['id']))
                elif n.a['k'] == 'var' and n.c in ('=', 'opassign') :
                    # a plain variable may be a reference: treated as a use as well
                    u |= ids(n.a)
                else:
                    u |= ids(n.a)
            elif n.op in ('call', 'new'):
                u |= ids(n.b)
                d.add(('t', n.a['id']))
            elif n.op == 'decl':
                u |= ids(n.b) if n.b is not None else set()
                if n.a.get('binds'):
                    for b in n.a['binds']:
                        d.add(('v', b['id']))
                d.add(('v', n.a['id']))
            elif n.op == 'feinit':
                u |= ids(n.b)
                d.add(('t', n.a['id']))
            elif n.op == 'febind':
                u |= {('t', n.b['id'])}
                if n.a.get('k') == 'decl':
                    d.add(('v', n.a['id']))
                else:
                    u |= ids(n.a)
            elif n.op == 'fenext':
                u |= {('t', n.a['id'])}
            elif n.op == 'dtor':
                u |= {('v', n.a['id'])}
            elif n.op in ('branch', 'retval', 'throw', 'delete', 'sdecl'):
                u |= ids(n.a) if isinstance(n.a, dict) else set()
                if n.op == 'sdecl':
                    u |= ids(n.b)
            elif n.op == 'catch':
                if n.a:
                    d.add(('v', n.a['id']))
            uses.append(u)
            defs.append(d)
        live = [set() for _ in g.nodes]
        preds = [[] for _ in g.nodes]
        for n in g.nodes:
            ss = list(n.succ)
            h = n.handlers
            if n.op in ('call', 'new', 'throw'):
                while h:
                    for (_, nid) in h[0]:
                        ss.append(nid)
                    h = h[1]
            for s in ss:
                preds[s].append(n.id)
        # parameters by reference stay live: the caller sees them
        keep = set()
        for p in self.fn.params:
            keep.add(('v', p['id']))
        work = list(range(len(g.nodes)))
        allsucc = [[] for _ in g.nodes]
        for s, ps in enumerate(preds):
            for p in ps:
                allsucc[p].append(s)
        while work:
            i = work.pop()
            out = set()
            for s in allsucc[i]:
                out |= live[s]
            new = (out - defs[i]) | uses[i] | keep
            if new != live[i]:
                live[i] = new
                work.extend(preds[i])
        for n in g.nodes:
            n.live = frozenset(live[n.id])


class Program(object):
    def __init__(self, units=None):
        units = units or extract()
        self.units = units
        self.funcs = {}
        self.byname = {}
        self.records = {}
        self.globals = {}
        self.enums = {}
        self.signals = set()
        self.slots = set()
        for path in sorted(units):
            u = units[path]
            for d in u['functions']:
                if d['u'] in self.funcs:
                    continue
                f = Func(d, len(self.funcs), path)
                self.funcs[f.key] = f
                self.byname.setdefault(f.name, []).append(f)
            for r in u['records']:
                self.records.setdefault(r['n'], r)
            for v in u['globals']:
                self.globals.setdefault(v['n'], v)
            for e in u['enums']:
                self.enums.setdefault(e['n'], e)
        for r in self.records.values():
            for m in r['methods']:
                if m['sec'] == 'qt_signal':
                    self.signals.add(m['f'])
                elif m['sec'] == 'qt_slot':
                    self.slots.add(m['f'])
        self.over = {}
        for f in self.funcs.values():
            for o in f.d.get('over', []):
                self.over.setdefault(o, []).append(f)
        self.fieldinfo = {}
        for r in self.records.values():
            for f in r['fields']:
                self.fieldinfo[f['n']] = f
        self._calls = {}
        self._mods = None
        self._reads = None
        self._throws = None
        self._connections = None

    # --- lookup
    def fn(self, name, nparams=None, optional=False):
        c = self.byname.get(NS + name) or self.byname.get(name) or []
        if nparams is not None:
            c = [f for f in c if len(f.params) == nparams]
        if not c:
            if optional:
                return None
            raise AnalysisError('function %s not found' % name)
        return c[0]

    def fns(self, name):
        return self.byname.get(NS + name) or self.byname.get(name) or []

    def methods(self, cls):
        return [f for f in self.funcs.values() if f.cls == NS + cls or f.cls == cls]

    def need_field(self, name):
        if NS + name in self.fieldinfo:
            return NS + name
        raise AnalysisError('field %s not found' % name)

    def field(self, cls, name, types=None):
        """A field of cls; falls back to the only field of one of the given types."""
        n = NS + cls + '::' + name
        if n in self.fieldinfo:
            return n
        if types:
            r = self.records.get(NS + cls)
            if r:
                c = [f['n'] for f in r['fields'] if f['ty'] in types]
                if len(c) == 1:
                    return c[0]
        raise AnalysisError('field %s::%s not found' % (cls, name))

    # --- call graph
    def targets(self, call):
        """Own functions a call expression may run (no signals)."""
        u = call.get('u')
        if u is None:
            return []
        r = []
        if u in self.funcs:
            r.append(self.funcs[u])
        if call.get('virt') and not call.get('nonvirt'):
            st = [u]
            while st:
                x = st.pop()
                for o in self.over.get(x, []):
                    if o not in r:
                        r.append(o)
                        st.append(o.key)
        return r

    def call_exprs(self, f):
        """All call/ctor/new nodes and function references in f (AST), excluding lambda bodies (own functions)."""
        if f.key not in self._calls:
            r = []
            roots = [f.d['body']] + [i.get('e') for i in f.d.get('inits', [])]
            for x in walk(roots):
                if x.get('k') in ('call', 'ctor', 'new', 'delete', 'throw', 'lambda'):
                    r.append(x)
            self._calls[f.key] = r
        return self._calls[f.key]

    @property
    def connections(self):
        """[(sender class, signal name, receiver class, slot functions, call, caller)] and queued invocations."""
        if self._connections is None:
            res = []
            for f in self.funcs.values():
                for c in self.call_exprs(f):
                    if c.get('k') != 'call':
                        continue
                    n = c.get('f', '')
                    if n == 'QObject::connect' or n.endswith('::connect'):
                        args = list(c['a'])
                        if c.get('o') is not None and not c.get('static') and len(args) >= 3 and False:
                            pass
                        names = []
                        for a in args:
                            nm = None
                            for x in walk(a):
                                if x.get('k') == 'str' and x['v'][:1] in '12':
                                    nm = ('s', x['v'][1:].split('(')[0])
                                elif x.get('k') == 'fref':
                                    nm = ('f', x['u'], x['f'])
                                elif x.get('k') == 'lambda':
                                    nm = ('l', x['u'])
                            names.append(nm)
                        idx = [i for i, x in enumerate(names) if x]
                        if not idx:
                            continue
                        sig = names[idx[0]]
                        slot = names[idx[1]] if len(idx) > 1 else None
                        signame = sig[1] if sig[0] == 's' else sig[2].split('::')[-1]
                        if sig[0] == 's':
                            sc = self.expr_class(args[0], f)
                            sig = ('s', sig[1], sc + '::' + sig[1] if sc and sc + '::' + sig[1] in self.signals else None)
                        slots = []
                        if slot is not None:
                            if slot[0] == 's':
                                slots = [g for g in self.funcs.values() if g.name.split('::')[-1] == slot[1]
                                         and g.cls in self.qobjects()]
                                rc = self.expr_class(args[idx[1] - 1], f) if idx[1] - 1 > idx[0] else \
                                    self.expr_class(c.get('o') or {'k': 'this'}, f)
                                ns = [g for g in slots if rc and (g.cls == rc or self.derives(rc, g.cls))]
                                slots = ns or slots
                                slotname = slot[1]
                            elif slot[0] == 'f':
                                slots = [self.funcs[slot[1]]] if slot[1] in self.funcs else []
                                slotname = slot[2]
                            else:
                                slots = [self.funcs[slot[1]]] if slot[1] in self.funcs else []
                                slotname = 'lambda'
                            res.append(('connect', signame, sig, slotname, slots, c, f))
                    elif n == 'QMetaObject::invokeMethod' or (n == 'QTimer::singleShot'):
                        nm = None
                        slots = []
                        for x in walk(c['a']):
                            if x.get('k') == 'str':
                                nm = x['v']
                                if n == 'QTimer::singleShot':
                                    nm = nm[1:].split('(')[0]
                                break
                            if x.get('k') == 'fref':
                                nm = x['f'].split('::')[-1]
                                if x['u'] in self.funcs:
                                    slots = [self.funcs[x['u']]]
                            if x.get('k') == 'lambda' and x['u'] in self.funcs:
                                nm = 'lambda'
                                slots = [self.funcs[x['u']]]
                        if nm and not slots:
                            slots = [g for g in self.funcs.values() if g.name.split('::')[-1] == nm
                                     and g.cls in self.qobjects()]
                        res.append(('invoke', None, None, nm, slots, c, f))
            self._connections = res
        return self._connections

    def expr_class(self, e, f):
        """Class of the object an expression names (directly or by pointer), or None."""
        while e is not None and e['k'] in ('cast', 'un') and e.get('e') is not None:
            if e['k'] == 'cast' and str(e.get('ty', '')).startswith(NS):
                break
            e = e['e']
        if e is None:
            return None
        if e['k'] == 'this':
            return f.cls
        ty = str(e.get('ty') or e.get('c') or '').replace('const ', '').rstrip('*& ').strip()
        return ty if ty in self.records else None

    def qobjects(self):
        if not hasattr(self, '_qo'):
            q = set()
            ch = True
            while ch:
                ch = False
                for n, r in self.records.items():
                    if n in q:
                        continue
                    if any(b in ('QObject', 'QThread', 'QCoreApplication') or b in q for b in r['bases']):
                        q.add(n)
                        ch = True
            self._qo = q
        return self._qo

    def signal_slots(self, signame):
        """Slots connected to the signal with that (qualified) name."""
        short = signame.split('::')[-1]
        cls = signame.rsplit('::', 1)[0]
        r = []
        for kind, sn, sig, slotname, slots, c, f in self.connections:
            if kind != 'connect' or sn != short:
                continue
            if sig[2] is not None and sig[2] != signame:
                continue
            for s in slots:
                if s not in r:
                    r.append(s)
        return r

    def event_entries(self):
        """Functions started by the event loop, by other threads or by the system."""
        r = []
        for kind, sn, sig, slotname, slots, c, f in self.connections:
            for s in slots:
                if s not in r:
                    r.append(s)
        return r

    def callees(self, f, signals=True):
        r = set()
        for c in self.call_exprs(f):
            k = c['k']
            if k in ('call', 'ctor'):
                for t in self.targets(c):
                    r.add(t.key)
                if signals and c.get('f') in self.signals:
                    for s in self.signal_slots(c['f']):
                        r.add(s.key)
            elif k == 'lambda':
                if c['u'] in self.funcs:
                    r.add(c['u'])
            elif k == 'delete':
                n = c.get('c')
                if n:
                    d = self.byname.get(n + '::~' + n.split('::')[-1])
                    if d:
                        r.add(d[0].key)
            # function pointers handed over
            if k == 'call' and not c.get('f', '').endswith('::connect') and c.get('f') != 'QObject::connect' \
                    and c.get('f') != 'QMetaObject::invokeMethod' and c.get('f') != 'QTimer::singleShot':
                for a in c['a']:
                    for x in walk(a):
                        if x.get('k') == 'fref' and x.get('u') in self.funcs:
                            r.add(x['u'])
        for x in walk(f.d['body']):
            if x.get('k') == 'asg':
                for y in walk(x['b']):
                    if y.get('k') == 'fref' and y.get('u') in self.funcs:
                        r.add(y['u'])
        return r

    def closure(self, roots, signals=True, stop=()):
        seen = set()
        st = [f.key for f in roots]
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            if self.funcs[k].name in stop or self.funcs[k].short in stop:
                continue
            st.extend(self.callees(self.funcs[k], signals))
        return {self.funcs[k] for k in seen}

    def callers_of(self, name):
        """[(caller, call expr)] of a function or method by qualified name."""
        full = {NS + name, name}
        r = []
        for f in self.funcs.values():
            for c in self.call_exprs(f):
                if c['k'] in ('call', 'ctor') and c.get('f') in full:
                    r.append((f, c))
        return r

    # --- effects
    def direct_mods(self, f):
        """(fields, globals) written or mutated directly by f."""
        mods = set()
        reads = set()

        def base_loc(e):
            """field or global at the root of an lvalue expression"""
            while isinstance(e, dict):
                k = e.get('k')
                if k == 'mem':
                    mods_.append(e['n'])
                    if e.get('ty', '').endswith('*'):
                        return
                    # a part of a value member changes the member as well
                    b = e['b']
                    if b.get('k') == 'mem' and not e.get('arrow'):
                        e = b
                        continue
                    return
                if k == 'var':
                    if e.get('g') in ('global', 'smember', 'static'):
                        mods_.append('g:' + e['n'])
                    return
                if k == 'call':
                    # element access: container changes
                    if e.get('o') is not None:
                        e = e['o']
                        continue
                    if e.get('a'):
                        e = e['a'][0]
                        continue
                    return
                if k in ('sub', ):
                    e = e['a']
                    continue
                if k in ('cast', 'un'):
                    e = e.get('e')
                    continue
                return

        roots = [f.d['body']] + [i.get('e') for i in f.d.get('inits', [])]
        for i in f.d.get('inits', []):
            if i.get('n'):
                mods.add(i['n'])
        for x in walk(roots):
            mods_ = []
            k = x.get('k')
            if k == 'asg':
                base_loc(x['a'])
            elif k == 'un' and x.get('op') in ('++', '--', 'p++', 'p--'):
                base_loc(x['e'])
            elif k == 'call':
                p = x.get('p', '')
                if x.get('o') is not None and not x.get('const') and not x.get('own') and x.get('f') not in self.signals:
                    # a mutating library method on the object
                    if not nonmutating(x):
                        base_loc(x['o'])
                for i, a in enumerate(x['a']):
                    pk = p[i] if i < len(p) and '*' not in p[:i + 1] else 'v'
                    if pk == 'r':
                        base_loc(a)
                    elif pk == 'p' and isinstance(a, dict) and a.get('k') == 'un' and a.get('op') == '&':
                        base_loc(a['e'])
            elif k == 'ctor':
                p = x.get('p', '')
                for i, a in enumerate(x['a']):
                    pk = p[i] if i < len(p) else 'v'
                    if pk == 'r':
                        base_loc(a)
            elif k == 'mem':
                reads.add(x['n'])
            elif k == 'var' and x.get('g') in ('global', 'smember', 'static'):
                reads.add('g:' + x['n'])
            for m in mods_:
                mods.add(m)
        return mods, reads

    def _effects(self):
        if self._mods is not None:
            return
        self._mods = {}
        self._reads = {}
        graph = {}
        for f in self.funcs.values():
            m, r = self.direct_mods(f)
            self._mods[f.key] = set(m)
            self._reads[f.key] = set(r)
            graph[f.key] = self.callees(f)
            # an event loop runs arbitrary slots
            if any(c['k'] == 'call' and c.get('f') in ('QEventLoop::exec', 'QCoreApplication::exec',
                                                         'QCoreApplication::processEvents')
                   for c in self.call_exprs(f)):
                graph[f.key] = graph[f.key] | {g.key for g in self.event_entries()}
        ch = True
        while ch:
            ch = False
            for k, cs in graph.items():
                a, b = len(self._mods[k]), len(self._reads[k])
                for c in cs:
                    self._mods[k] |= self._mods[c]
                    self._reads[k] |= self._reads[c]
                if len(self._mods[k]) != a or len(self._reads[k]) != b:
                    ch = True
        self._graph = graph

    def mods(self, f):
        self._effects()
        return self._mods[f.key]

    def reads(self, f):
        self._effects()
        return self._reads[f.key]

    def derives(self, c, base):
        if c == base:
            return True
        r = self.records.get(c)
        if not r:
            return False
        return any(self.derives(b, base) for b in r['bases'])

    def throws(self):
        """{function key: set of exception classes that may leave it} (own exceptions only)."""
        if self._throws is not None:
            return self._throws
        res = {k: set() for k in self.funcs}
        ch = True
        while ch:
            ch = False
            for k, f in self.funcs.items():
                new = self._throw_of(f, res)
                if new != res[k]:
                    res[k] = new
                    ch = True
        self._throws = res
        return res

    def _throw_of(self, f, res):
        out = set()
        rethrow = set()
        # which handler nodes can be reached with which classes
        caught = {}
        for n in f.cfg.nodes:
            cls = set()
            if n.op == 'throw':
                c = n.b.get('c')
                if c:
                    cls.add(c)
                else:
                    cls.add('rethrow')
            elif n.op == 'call':
                for t in self.targets(n.b):
                    cls |= res[t.key]
                if n.b.get('f') in self.signals:
                    for t in self.signal_slots(n.b['f']):
                        cls |= res[t.key]
            elif n.op == 'new' and isinstance(n.b.get('i'), dict) and n.b['i'].get('u') in self.funcs:
                cls |= res[n.b['i']['u']]
            for c in cls:
                h = n.handlers
                done = False
                if c == 'rethrow':
                    rethrow.add(n)
                    continue
                while h and not done:
                    for (hc, nid) in h[0]:
                        if hc is None or self.derives(c, hc):
                            caught.setdefault(nid, set()).add(c)
                            done = True
                            break
                    h = h[1]
                if not done:
                    out.add(c)
        if rethrow:
            # a rethrow sends on what its handler caught (handler bodies: nodes reachable from the catch node)
            for nid, cs in caught.items():
                reach = self._reach(f.cfg, nid)
                if any(n.id in reach for n in rethrow):
                    out |= cs
        return out

    def _reach(self, cfg, nid):
        seen = set()
        st = [nid]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(cfg.nodes[x].succ)
        return seen


NONMUT = {'begin', 'end', 'constBegin', 'constEnd', 'first', 'last', 'front', 'back', 'data', 'find',
          'operator[]', 'lock', 'unlock', 'start', 'at'}


def nonmutating(call):
    """Non-const library methods that merely give access."""
    n = call.get('f', '').split('::')[-1]
    if call.get('op') == '[]':
        # QHash/QMap operator[] inserts, list/string operator[] gives access
        return not ('QHash' in call.get('cls', '') or 'QMap' in call.get('cls', ''))
    return n in ('begin', 'end', 'constBegin', 'constEnd', 'first', 'last', 'front', 'back', 'data', 'find')
