"""C29: the expression evaluator of the preprocessor."""
from .common import *
from .registry import check
from .process import poly, peq, padd
from .lines import neg, sub, const

PP = 'PPExprParser::'
TAB = 'ppexpr_grammar::'
THIS = ('this',)
TOP, STATES, SYMS = ('sym', 'top'), ('sym', 'states'), ('sym', 'syms')
SHIFT, TOKEN, GOTO = ('sym', 'shift'), ('sym', 'token'), ('sym', 'goto')

# token: text, and how tight it binds
BINARY = {'T_MULT': ('*', 5), 'T_DIV': ('/', 5), 'T_MOD': ('%', 5), 'T_PLUS': ('+', 4), 'T_MINUS': ('-', 4),
          'T_SHIFT_LEFT': ('<<', 3), 'T_SHIFT_RIGHT': ('>>', 3),
          'T_EQUAL': ('==', 2), 'T_NOT_EQUAL': ('!=', 2), 'T_LESS_THAN': ('<', 2), 'T_GREATER_THAN': ('>', 2),
          'T_EQUAL_OR_LESS_THAN': ('<=', 2), 'T_EQUAL_OR_GREATER_THAN': ('>=', 2),
          'T_BOOL_AND': ('&&', 1), 'T_BOOL_OR': ('||', 1), 'T_BIT_AND': ('&', 1), 'T_BIT_OR': ('|', 1)}
UNARY = {'T_MINUS': '-', 'T_BIT_NOT': '~', 'T_BOOL_NOT': '!'}
OTHER = {'T_LEFT_PAREN': '(', 'T_RIGHT_PAREN': ')'}


def ints(prog, name):
    """The numbers (or strings) of a constant array."""
    g = prog.globals.get(name)
    if not g or not isinstance(g.get('i'), dict) or 'a' not in g['i']:
        raise AnalysisError('no constant array %s' % name)
    return [x.get('v') for x in g['i']['a']]


class Tables(object):
    def __init__(self, prog):
        self.prog = prog
        for n in ('lhs', 'rhs', 'rule_info', 'rule_index', 'goto_default', 'action_default', 'action_index', 'action_info', 'action_check'):
            setattr(self, n, ints(prog, TAB + n))
        e = {}
        for name, en in prog.enums.items():
            if name.startswith(TAB) or name.startswith('ppexpr_grammar'):
                e.update({x['n'].split('::')[-1]: x['v'] for x in en['v']})
        self.enum = e
        for n in ('TERMINAL_COUNT', 'ACCEPT_STATE', 'RULE_COUNT', 'GOTO_INDEX_OFFSET', 'GOTO_INFO_OFFSET', 'GOTO_CHECK_OFFSET'):
            if n not in e:
                raise AnalysisError('no constant %s of the grammar' % n)
        self.T = e['TERMINAL_COUNT']
        self.token = {v: k for k, v in e.items() if k.startswith('T_') or k == 'EOF_SYMBOL'}
        self.rules = []
        for i, lhs in enumerate(self.lhs):
            a = self.rule_index[i]
            self.rules.append((lhs, tuple(self.rule_info[a + 1:a + 1 + self.rhs[i]])))

    def t_action(self, state, tok):
        y = self.action_index[state] + tok
        if y < 0 or y >= len(self.action_check) or self.action_check[y] != tok:
            return -self.action_default[state]
        return self.action_info[y]

    def nt_action(self, state, nt):
        y = self.action_index[self.enum['GOTO_INDEX_OFFSET'] + state] + nt
        if y < 0 or self.action_check[self.enum['GOTO_CHECK_OFFSET'] + y] != nt:
            return self.goto_default[nt]
        return self.action_info[self.enum['GOTO_INFO_OFFSET'] + y]


# ---------------------------------------------------------------- the grammar and its automaton
def grammar(prog, rep, tab):
    G = type('G', (), {})()
    fn = prog.fns(PP + 'parse')[0]
    line = prog.globals[TAB + 'rule_info']['line']
    where = prog.globals[TAB + 'rule_info']['file']

    def ck(c, key, msg):
        if c:
            rep.ok('C29.grammar', key)
        else:
            rep.bad('C29.grammar', 'ppexpr_grammar', line, key, msg, None, file=where)

    for i, (l, r) in enumerate(tab.rules):
        ck(tab.rule_info[tab.rule_index[i]] == tab.lhs[i], 'rule %d' % i, 'production %d is of another symbol than the table of the parser says' % i)
    start = tab.rules[0][0]
    # the chain of unit productions gives the levels
    level, todo = {start: 0}, [start]
    while todo:
        a = todo.pop(0)
        for l, r in tab.rules:
            if l == a and len(r) == 1 and r[0] >= tab.T and r[0] not in level:
                level[r[0]] = level[a] + 1
                todo.append(r[0])
    found, lev = {}, {}
    un, unary_level = set(), None
    for i, (l, r) in enumerate(tab.rules):
        names = [tab.token.get(x) if x < tab.T else None for x in r]
        if len(r) == 1 or l not in level:
            continue
        if len(r) == 2 and names[0] in UNARY and r[1] >= tab.T:
            un.add(names[0])
            unary_level = level[l]
            ck(level.get(r[1], -1) > level[l], 'operand of unary ' + names[0], 'the operand of a unary operator is no expression that binds tighter')
            continue
        if len(r) == 3 and names[0] == 'T_LEFT_PAREN' and names[2] == 'T_RIGHT_PAREN' and r[1] >= tab.T:
            ck(level.get(r[1]) is not None and level[r[1]] <= 1, 'parentheses', 'parentheses do not hold every expression')
            continue
        if len(r) == 3 and names[1] in BINARY:
            if names[0] == names[2] == 'T_STRING':
                found.setdefault(('s', names[1]), []).append(i)
                continue
            found.setdefault(names[1], []).append(i)
            lev[names[1]] = level[l]
            ck(r[0] == l, 'left ' + names[1], 'the left operand of %s is no expression of the same level: operators of one level are not '
               'evaluated from left to right' % BINARY[names[1]][0])
            ck(r[2] != l and level.get(r[2], -1) > level[l], 'right ' + names[1], 'the right operand of %s is no expression that binds tighter' % BINARY[names[1]][0])
            continue
        ck(False, 'production %d' % i, 'production %d is none of the known forms' % i)
    for t, (text, lv) in BINARY.items():
        ck(len(found.get(t, ())) == 1, 'one ' + t, 'there is no single production of the operator %s' % text)
    for t in ('T_EQUAL', 'T_NOT_EQUAL'):
        ck(len(found.get(('s', t), ())) == 1, 'strings ' + t, 'strings cannot be compared with %s' % BINARY[t][0])
    ck(un == set(UNARY), 'unary', 'the unary operators are not - ~ !')
    for a in lev:
        for b in lev:
            if BINARY[a][1] > BINARY[b][1]:
                ck(lev[a] > lev[b], '%s over %s' % (a, b), '%s does not bind tighter than %s' % (BINARY[a][0], BINARY[b][0]))
        ck(unary_level is not None and unary_level > lev[a], 'unary over %s' % a, 'a unary operator does not bind tighter than %s' % BINARY[a][0])
    # LR(1) item sets, merged by core as they are found (LALR), compared with the tables
    EOF = tab.enum.get('EOF_SYMBOL', 0)
    prods = tab.rules
    acc = len(prods) - 1
    nts = {l for l, r in prods}
    first = {n: set() for n in nts}
    change = True
    while change:
        change = False
        for l, r in prods:
            f = first[r[0]] if r[0] in nts else {r[0]}
            if not f <= first[l]:
                first[l] |= f
                change = True

    def closure(items):
        items = {k: set(v) for k, v in items.items()}
        todo = list(items)
        while todo:
            p, d = todo.pop()
            r = prods[p][1]
            if d >= len(r) or r[d] not in nts:
                continue
            la = (first[r[d + 1]] if r[d + 1] in nts else {r[d + 1]}) if d + 1 < len(r) else items[(p, d)]
            for i, (l, _) in enumerate(prods):
                if l == r[d]:
                    old = items.setdefault((i, 0), set())
                    if not set(la) <= old or not old:
                        n = len(old)
                        old |= set(la)
                        if len(old) != n or n == 0:
                            todo.append((i, 0))
        return items

    # merge by core = by state of the tables: walk both together
    states = {0: closure({(acc, 0): {EOF}})}
    todo = [0]
    bad = []
    steps = 0
    while todo and not bad:
        s = todo.pop(0)
        I = states[s]
        for x in {prods[p][1][d] for p, d in I if d < len(prods[p][1])}:
            steps += 1
            if (acc, 1) in I and x == EOF:
                if tab.t_action(s, EOF) != tab.enum['ACCEPT_STATE']:
                    bad.append('the end of the expression is not accepted in state %d' % s)
                continue
            t = tab.t_action(s, x) if x < tab.T else tab.nt_action(s, x - tab.T)
            if t <= 0 or t == tab.enum['ACCEPT_STATE'] or t >= tab.enum['GOTO_INDEX_OFFSET']:
                bad.append('state %d has no transition on symbol %d, which the grammar has there' % (s, x))
                break
            K = {(p, d + 1): la for (p, d), la in I.items() if d < len(prods[p][1]) and prods[p][1][d] == x}
            new = closure(K)
            if t not in states:
                states[t] = new
                todo.append(t)
            else:
                if set(states[t]) != set(new):
                    bad.append('state %d stands for two different positions in the grammar' % t)
                    break
                grown = False
                for k, la in new.items():
                    if not la <= states[t][k]:
                        states[t][k] |= la
                        grown = True
                if grown and t not in todo:
                    todo.append(t)
    if not bad:
        for s, I in states.items():
            red = {}
            for (p, d), la in I.items():
                if d == len(prods[p][1]):
                    for x in la:
                        if x in red:
                            bad.append('two productions end in state %d' % s)
                        red[x] = p
            moves = {prods[p][1][d] for p, d in I if d < len(prods[p][1])}
            for x in range(tab.T):
                a = tab.t_action(s, x)
                if x in moves:
                    if x in red:
                        bad.append('the grammar is ambiguous in state %d' % s)
                elif x in red:
                    if a != -(red[x] + 1):
                        bad.append('in state %d symbol %d does not end production %d' % (s, x, red[x]))
                elif a > 0:
                    bad.append('in state %d symbol %d is taken, which the grammar does not have there' % (s, x))
                elif a < 0 and -a - 1 not in red.values():
                    bad.append('in state %d production %d is applied, which does not end there' % (s, -a - 1))
            if tab.action_index[s] == -tab.T:
                rr = set(red.values())
                if len(rr) != 1 or moves:
                    bad.append('state %d does not look at the next token but depends on it' % s)
    rep.check(not bad, 'C29.table', type('S', (), {'fn': fn})(), None, 'automaton', 'the tables are no automaton of the grammar: ' + '; '.join(bad[:3]), None)
    return steps, len(states)


# ---------------------------------------------------------------- the driver and the actions
class Lookup(Rule):
    """t_action and nt_action read the tables as assumed. Flags: what is known about the comparisons on the path."""

    def branch(self, eng, st, fr, node, term, truth):
        t, v = term, truth
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = t[2], not v
        st.flags[('cmp', t)] = v

    def ret(self, eng, st, fr, node, val):
        if fr.parent is not None:
            return
        self.n = getattr(self, 'n', 0) + 1
        name = fr.fn.short.split('::')[-1]
        P = [('p', fr.fn.key, p['n']) for p in fr.fn.d['params']]
        e = self.tab.enum
        nt = name == 'nt_action'
        off = e['GOTO_INDEX_OFFSET'] if nt else 0
        info = e['GOTO_INFO_OFFSET'] if nt else 0
        chk = e['GOTO_CHECK_OFFSET'] if nt else 0

        def arr(t, n):
            return t[2] if t[0] == 'elem' and t[1] == ('g', TAB + n) else None

        def is_y(t, k):
            """t = action_index[off + state] + symbol + k"""
            p = poly(t) if t is not None else None
            if p is None:
                return False
            q = dict(p)
            c = q.pop(1, 0)
            if c != k or q.pop(P[1], 0) != 1 or len(q) != 1:
                return False
            (a, f), = q.items()
            i = arr(a, 'action_index')
            return f == 1 and i is not None and peq(poly(i), padd({P[0]: 1}, {1: off} if off else {}))

        miss = hit = under = over = False
        for f, v in st.flags.items():
            if f[0] != 'cmp':
                continue
            t = f[1]
            if t[0] == 'op' and t[1] == '<' and t[3] == ('c', 0) and is_y(t[2], 0):
                under, over = (True, over) if v else (under, True)
            if t[0] == 'op' and t[1] == '==':
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if b == P[1] and is_y(arr(a, 'action_check'), chk):
                        hit, miss = (True, miss) if v else (hit, True)
        taken = is_y(arr(val, 'action_info'), info) and over and hit
        if nt:
            d = arr(val, 'goto_default') == P[1]
        else:
            p = poly(val)
            d = p is not None and len(p) == 1 and all(v == -1 and arr(k, 'action_default') == P[0] for k, v in p.items() if k != 1) and 1 not in p \
                or val[0] == 'op' and val[1] == 'neg' and arr(val[2], 'action_default') == P[0]
        self.rep.check(taken or d and (under or miss), 'C29.table', fr, node, 'lookup in ' + name,
                       '%s does not look up the action of a state and a symbol in the tables' % name, st)


def top_of(st):
    f = ('f', THIS, PP + 'tos')
    return st.heap.get(f, f)


class Drive(Rule):
    """One step of the parser. Flags: ('held',) a token is kept for the next step, ('w', k) what position k of the values got, ('s', k) of the
    states, ('eq', X, k) comparison with a constant."""

    def inline(self, eng, fn):
        return fn.cls == 'PPExprParser' and fn.short.split('::')[-1] not in ('yylex', 'reallocateStack', 'parse') \
            or fn.cls is None and fn.file == self.root.file

    def enter(self, eng, st, fr):
        if fr.parent is None:
            self.rootfr = fr

    def loop(self, eng, st, fr, node, what, lid):
        if fr.parent is not None or self.nested(fr.fn.cfg.loops[lid]):
            return
        if what == 'back':
            if ('act',) in st.flags:
                self.step(eng, st, fr, node, None, None)
            return False
        if ('act',) in st.flags or ('iter',) in st.flags:
            return
        # the start
        self.rep.check(st.flags.get(('s0',)) == ('c', 0), 'C29.driver', fr, node, 'first state',
                       'the parser does not start with state 0 on its stack', st)
        for f in list(st.flags):
            if f[0] in ('s0', 'w'):
                del st.flags[f]
        for f, v in (('tos', TOP), ('state_stack', STATES), ('sym_stack', SYMS)):
            st.heap[('f', THIS, PP + f)] = v
        st.flags[('iter',)] = True

    @staticmethod
    def nested(loop):
        return getattr(loop, 'parent', None) if not isinstance(loop, dict) else loop.get('parent')

    def tops(self, k):
        return padd({TOP: 1}, {1: k} if k else {})

    def pos(self, st, idx):
        """Position above the part of the stack that stays: 1 is the first value of the production."""
        n = st.flags.get(('n',))
        p = poly(self.known(idx))
        k = const(sub(p, {TOP: 1})) if p is not None else None
        return None if k is None or n is None else k + n

    def known(self, t):
        """The numbers of the tables put in."""
        if not isinstance(t, tuple) or not t:
            return t
        t = tuple(self.known(x) if isinstance(x, tuple) else x for x in t)
        if t[0] == 'elem' and isinstance(t[1], tuple) and t[1][0] == 'g':
            a = {TAB + 'rhs': self.tab.rhs, TAB + 'lhs': self.tab.lhs}.get(t[1][1])
            i = const(poly(t[2])) if a and isinstance(t[2], tuple) else None
            if i is None and t[2][0] == 'op':
                i = const(self.p2(t[2]))
            if a and i is not None and 0 <= i < len(a):
                return ('c', a[i])
        return t

    def p2(self, t):
        if t[0] == 'op' and t[1] == 'neg' and len(t) == 3:
            p = self.p2(t[2])
            return neg(p) if p is not None else None
        if t[0] == 'op' and t[1] in ('+', '-') and len(t) == 4:
            a, b = self.p2(t[2]), self.p2(t[3])
            return None if a is None or b is None else padd(a, b if t[1] == '+' else neg(b))
        return poly(t)

    def call(self, eng, st, fr, node, ci):
        s = ci.short.split('::')[-1]
        if s in ('operator==', 'operator!=', 'compare', 'qstrcmp', 'strcmp'):
            st.flags[('text',)] = True
        if s == 'yylex':
            self.rep.check(not st.flags.get(('held',)), 'C29.driver', fr, node, 'token lost', 'a token is read while the one before is still to be used', st)
            st.flags[('held',)] = True
            return [(st, TOKEN)]
        if s == 'reallocateStack':
            st.flags[('room',)] = True
            return [(st, ('c', 0))]
        if s == 'nt_action':
            r = st.flags.get(('act',))
            if not isinstance(r, int) or len(ci.args) < 2:
                return
            p = self.known(ci.args[0])
            ok = p[0] == 'elem' and p[1] == STATES and self.pos(st, p[2]) == 0
            self.rep.check(ok, 'C29.driver', fr, node, 'state below', 'the next state is not looked up from the state below the production', st)
            self.rep.check(const(self.p2(self.known(ci.args[1]))) == self.tab.lhs[r] - self.tab.T, 'C29.driver', fr, node, 'left side',
                           'the next state is not looked up for the symbol the production stands for', st)
            return [(st, GOTO)]
        if s == 't_action':
            if len(ci.args) < 2:
                return
            p = ci.args[0]
            self.rep.check(p[0] == 'elem' and p[1] == STATES and peq(poly(p[2]), {TOP: 1}), 'C29.driver', fr, node, 'state on top',
                           'the action is not looked up for the state on top of the stack', st)
            a = ci.args[1]
            if st.flags.get(('held',)):
                ok = a == TOKEN
            else:
                ok = a == ('c', -1) and st.flags.get(('idle',), False)
            self.rep.check(ok, 'C29.driver', fr, node, 'next token', 'the action is not looked up for the next token of the expression', st)
            res = []
            for r in [None, 'accept', 'error'] + list(range(len(self.tab.rules) - 1)):
                s2 = st.copy()
                s2.flags[('act',)] = 'shift' if r is None else r
                s2.flags[('n',)] = self.tab.rhs[r] if isinstance(r, int) else 0
                v = SHIFT if r is None else ('c', self.tab.enum['ACCEPT_STATE']) if r == 'accept' else ('c', 0) if r == 'error' else ('c', -r - 1)
                res.append((s2, v))
            return res

    def branch(self, eng, st, fr, node, term, truth):
        t, v = term, truth
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = t[2], not v
        if SHIFT in (t[2:] if t[0] == 'op' else ()):
            # a shift is a positive number other than the one of the end
            o = [x for x in t[2:] if x != SHIFT][0]
            if o[0] == 'c':
                if t[1] == '==':
                    return False if v and (o[1] <= 0 or o[1] == self.tab.enum['ACCEPT_STATE']) else None
                if t[1] == '<':
                    low = t[3] == SHIFT         # o < SHIFT
                    if low and o[1] <= 0:
                        return None if v else False
                    if not low and o[1] <= 1:
                        return False if v else None
        if t[0] == 'op' and t[1] == '==' and len(t) == 4:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[0] == 'c':
                    st.flags[('eq', b, a[1])] = v
                    if b[0] == 'elem' and b[1] == ('g', TAB + 'action_index') and b[2][0] == 'elem' and b[2][1] == STATES \
                            and peq(poly(b[2][2]), {TOP: 1}) and a[1] == -self.tab.T:
                        st.flags[('idle',)] = v
                pa, pb = poly(a), poly(b)
                if pa is not None and peq(pa, self.tops(1)) and b[0] == 'f' and b[2].endswith('stack_size') and not v:
                    st.flags[('room',)] = True
            if t[2][0] != 'c' and t[3][0] != 'c':
                st.flags[('cmp', t)] = v
        elif t[0] == 'op' and t[1] == '<' and len(t) == 4:
            st.flags[('cmp', t)] = v
            pa = poly(t[2])
            if pa is not None and peq(pa, self.tops(1)) and t[3][0] == 'f' and t[3][2].endswith('stack_size') and v:
                st.flags[('room',)] = True
        elif t[0] == 'f' or t[0] == 'sym':
            st.flags[('eq', t, 0)] = not v
            if t[0] == 'sym' and t in (STATES, SYMS) and not v:
                st.flags[('nomem',)] = True

    def write(self, eng, st, fr, node, loc, val, op):
        if loc == ('f', THIS, PP + 'tos') and ('act',) not in st.flags:
            st.flags.pop(('s0',), None)
        if loc[0] == 'loc' and val is not None:
            t = self.norm(st, val)
            if t[0] == 'str' and ('w', t[1], 'num') in st.flags or t[0] == 'num' and ('w', t[1], 'str') in st.flags:
                self.rep.check(False, 'C29.action', fr, node, 'overwritten operand', 'an operand is read after the result was written over it', st)
        base = loc
        path = []
        while base[0] == 'f' and base[1] != THIS:
            path.append(base[2].split('::')[-1])
            base = base[1]
        if base[0] != 'elem':
            return
        arr = base[1]
        if arr in (STATES, ('f', THIS, PP + 'state_stack')):
            if ('act',) not in st.flags:
                if peq(poly(base[2]), poly(top_of(st))):
                    st.flags[('s0',)] = val
                return
            if arr != STATES:
                return
            k = const(sub(poly(self.known(base[2])) or {}, {TOP: 1}))
            st.flags[('s', k)] = val
            if k is not None and k > 0:
                self.rep.check(st.flags.get(('room',)), 'C29.driver', fr, node, 'room', 'the stack is written without room for one more state', st)
        elif arr == SYMS:
            k = self.pos(st, base[2])
            v = val
            if op not in ('=', 'decl', 'opassign') and op and op.endswith('=') and isinstance(node.b, dict):
                v = ('op', op[:-1], self.before(st, loc), eng.ev(fr, st, node.b))
            st.flags[('w', k, path[0] if path else None)] = self.known(v)
            self.trap(fr, node, st, v)

    def before(self, st, loc):
        return st.flags.get(('w', self.pos(st, self.base(loc)[2]), 'num'), loc)

    @staticmethod
    def base(loc):
        while loc[0] == 'f':
            loc = loc[1]
        return loc

    def trap(self, fr, node, st, v):
        for t in subterms(v):
            if t[0] == 'op' and t[1] in ('/', '%') and len(t) == 4:
                d = t[3]
                ok = d[0] == 'c' and d[1] not in (0, -1) or \
                    all(st.flags.get(('eq', d, k)) is False or st.truth(cmp_term('==', d, ('c', k))[0]) is False for k in (0, -1))
                self.rep.check(ok, 'C29.trap', fr, node, 'divisor', 'a division by 0 or of the least number by -1 stops the program', st)

    # ------------------------------------------------------------ the end of a step
    def num(self, st, k):
        """The number in position k before the step."""
        n = st.flags[('n',)]
        return k - n

    def step(self, eng, st, fr, node, kind, val):
        act = st.flags[('act',)]
        top = poly(self.known(top_of(st)))
        if act == 'accept':
            self.rep.check(kind is not None and st.truth(val) is True and peq(top, {TOP: 1}) and not [f for f in st.flags if f[0] in ('w', 's')], 'C29.driver',
                           fr, node, 'accept', 'an expression that is read to its end is no success, or its value is changed', st)
            return
        if act == 'error':
            self.rep.check(kind is not None and st.truth(val) is False, 'C29.driver', fr, node, 'error', 'an expression that does not fit the grammar is no error', st)
            return
        if act == 'shift':
            if kind is not None:
                self.rep.check(st.flags.get(('nomem',)) and st.truth(val) is False, 'C29.driver', fr, node, 'shift ends', 'the parser stops at a token that fits', st)
                return
            w = st.flags.get(('w', 1, None))
            ok = peq(top, self.tops(1)) and st.flags.get(('s', 1)) == SHIFT and w is not None and strip_old(w) == ('f', THIS, PP + 'yylval')
            self.rep.check(ok and not [f for f in st.flags if f[0] == 'w' and f[1] != 1], 'C29.driver', fr, node, 'shift',
                           'a token that fits is not pushed with its value and its state', st)
            tok = [v for k, v in st.env.items() if v == TOKEN]
            self.rep.check(not tok, 'C29.driver', fr, node, 'token used', 'a token is kept after it was pushed', st)
            return
        # a production
        n = self.tab.rhs[act]
        l, r = self.tab.rules[act]
        names = [self.tab.token.get(x) if x < self.tab.T else None for x in r]
        if kind is not None:
            div = len(r) == 3 and names[1] in ('T_DIV', 'T_MOD') and self.fact(st, self.old(st, 3), 0) is True
            self.rep.check(div and st.truth(val) is False, 'C29.action', fr, node, 'stop in %d' % act, 'the parser stops in %s' % self.show(act), st)
            return
        self.rep.check(peq(top, self.tops(1 - n)) and st.flags.get(('s', 1 - n)) == GOTO, 'C29.driver', fr, node, 'reduce',
                       'a production is not replaced by its symbol with the next state', st)
        if st.flags.get(('held',)):
            self.rep.check(any(v == TOKEN for v in st.env.values()), 'C29.driver', fr, node, 'token kept', 'the next token is dropped by a production', st)
        ws = {f[1:]: v for f, v in st.flags.items() if f[0] == 'w'}
        other = [f for f in ws if f[0] != 1]
        res = ws.get((1, 'num'), ws.get((1, None)))
        msg = '%s does not yield its value' % self.show(act)
        ok = not other
        if n == 1:
            ok = ok and not ws
        elif n == 2:
            ok = ok and self.unary(st, names[0], self.old(st, 2), res)
        elif names[0] == 'T_LEFT_PAREN':
            ok = ok and res is not None and (self.norm(st, res) == self.old(st, 2) or self.whole(st, res, 2))
        elif names[0] == 'T_STRING':
            ok = ok and self.strings(st, names[1], res)
        else:
            ok = ok and self.binary(st, names[1], self.old(st, 1), self.old(st, 3), res)
        self.rep.check(ok, 'C29.action', fr, node, 'production %d' % act, msg, st)
        self.done.add(act)

    def show(self, act):
        l, r = self.tab.rules[act]
        return 'the production "' + ' '.join((BINARY[self.tab.token[x]][0] if self.tab.token.get(x) in BINARY else
                                              UNARY.get(self.tab.token.get(x), OTHER.get(self.tab.token.get(x), self.tab.token.get(x) or 'x')))
                                             if x < self.tab.T else 'x' for x in r) + '"'

    def old(self, st, k):
        return ('num', k)

    def norm(self, st, t):
        """The numbers in the positions named."""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'old':
            return self.norm(st, t[1])
        if t[0] == 'f':
            b = self.base(t)
            if b[0] == 'elem' and b[1] == SYMS:
                k = self.pos(st, b[2])
                if k is not None:
                    return (t[2].split('::')[-1], k)
        return tuple(self.norm(st, x) if isinstance(x, tuple) else x for x in t)

    def whole(self, st, t, k):
        t = strip_old(t)
        return t[0] == 'elem' and t[1] == SYMS and self.pos(st, t[2]) == k

    def facts(self, st):
        f = {}
        for k, v in st.flags.items():
            if k[0] == 'eq':
                f[(self.norm(st, self.known(k[1])), k[2])] = v
        return f

    def fact(self, st, x, k):
        return self.facts(st).get((x, k))

    def cmps(self, st):
        return {self.norm(st, self.known(k[1])): v for k, v in st.flags.items() if k[0] == 'cmp'}

    def settle(self, st, res, truth, op, a, b):
        """res is the number 1 or 0 for a truth value that the path decides, or the comparison itself."""
        res = self.norm(st, res)
        if res[0] == 'c':
            return truth is not None and res[1] == (1 if truth else 0)
        if op:
            return self.canon(res) == self.canon2(op, a, b)
        return False

    def canon(self, t):
        v = True
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = t[2], not v
        if t[0] == 'op' and t[1] == '==' and len(t) == 4:
            return ('==', frozenset((t[2], t[3])), v)
        if t[0] == 'op' and t[1] == '<' and len(t) == 4:
            return ('<', t[2], t[3], v)
        return t

    def canon2(self, op, a, b):
        return {'==': ('==', frozenset((a, b)), True), '!=': ('==', frozenset((a, b)), False), '<': ('<', a, b, True), '>': ('<', b, a, True),
                '<=': ('<', b, a, False), '>=': ('<', a, b, False)}[op]

    def decided(self, st, op, a, b):
        c = self.canon2(op, a, b)
        for t, v in self.cmps(st).items():
            k = self.canon(t)
            if isinstance(k, tuple) and k[:-1] == c[:-1] and k[0] in ('==', '<'):
                return (v == k[-1]) == c[-1]
        return None

    def unary(self, st, tok, x, res):
        if res is None:
            return False
        t = self.norm(st, res)
        if tok == 'T_MINUS':
            return t == ('op', 'neg', x) or t == ('op', '-', ('c', 0), x) or t == ('op', '*', ('c', -1), x) or t == ('op', '*', x, ('c', -1))
        if tok == 'T_BIT_NOT':
            return t == ('op', '~', x)
        z = self.fact(st, x, 0)
        return self.settle(st, res, z, None, None, None) or self.canon(t) in (('==', frozenset((('c', 0), x)), True), ('op', '!', x)) \
            or t == ('op', '!', x)

    def strings(self, st, tok, res):
        if res is None:
            return False
        a, b = ('str', 1), ('str', 3)
        op = BINARY[tok][0]
        t = self.norm(st, res)

        def deref(t):
            if isinstance(t, tuple) and t and t[0] == 'd' and len(t) == 2:
                return deref(t[1])
            return tuple(deref(x) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t
        d = None
        if not st.flags.get(('text',)):
            return False
        for c, v in self.cmps(st).items():
            k = self.canon(deref(c))
            if isinstance(k, tuple) and k[0] == '==' and k[1] == frozenset((a, b)):
                d = (v == k[2]) == (op == '==')
        return self.settle(st, res, d, None, None, None) or self.canon(deref(t)) == self.canon2(op, a, b)

    def binary(self, st, tok, a, b, res):
        op = BINARY[tok][0]
        if res is None:
            return False
        t = self.norm(st, res)
        if op in ('&&', '||'):
            za, zb = self.fact(st, a, 0), self.fact(st, b, 0)
            dom = op == '&&'
            d = None
            if (za is dom) or (zb is dom):
                d = not dom
            elif za is (not dom) and zb is (not dom):
                d = dom
            return self.settle(st, res, d, None, None, None)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.settle(st, res, self.decided(st, op, a, b), op, a, b)
        if op in ('+', '-'):
            return peq(poly(t), padd({a: 1}, {b: 1 if op == '+' else -1}))
        if op in ('*', '&', '|'):
            return t in (('op', op, a, b), ('op', op, b, a))
        if op in ('/', '%') and self.fact(st, b, -1) is True:
            return peq(self.p2(t), {a: -1}) if op == '/' else t == ('c', 0)
        return t == ('op', op, a, b)

    def exit(self, eng, st, fr, node, kind, val):
        pass

    def ret(self, eng, st, fr, node, val):
        if fr.parent is None and ('act',) in st.flags:
            self.step(eng, st, fr, node, 'ret', val)


# ---------------------------------------------------------------- the lexer
class Dfa(object):
    """The tables of the lexer, walked as the loop of a flex scanner does."""

    def __init__(self, prog):
        for n in ('accept', 'ec', 'meta', 'base', 'def', 'nxt', 'chk'):
            setattr(self, n, ints(prog, 'yy_' + n))
        self.jam = len(self.accept) - 1

    def next(self, s, c):
        """The state after character c, None if there is none."""
        k = self.ec[c]
        while self.chk[self.base[s] + k] != s:
            s = self.def_(s)
            if s > self.jam:
                k = self.meta[k]
        s = self.nxt[self.base[s] + k]
        return None if s == self.jam else s

    def def_(self, s):
        return getattr(self, 'def')[s]

    def run(self, start, text):
        s = start
        for c in text:
            s = self.next(s, ord(c))
            if s is None:
                return None
        return s

    def act(self, s):
        return self.accept[s] if s is not None else 0


class Actions(object):
    """What the actions of the lexer do: the paths of the control flow graph from the case of an action to its return or to the next token."""

    def __init__(self, prog, fn):
        self.prog, self.fn = prog, fn
        self.N = {n.id: n for n in fn.cfg.nodes}
        chains = {}
        for n in fn.cfg.nodes:
            if n.op == 'branch' and isinstance(n.a, dict) and n.a.get('case'):
                v = n.a['a']
                if v.get('k') == 'var':
                    chains.setdefault(v.get('id'), {})[n.a['b'].get('v')] = n
        if not chains:
            raise AnalysisError('no actions found in yylex')
        self.cases = max(chains.values(), key=len)
        self.skip = {n.id for n in self.cases.values()}

    def paths(self, act):
        if act not in self.cases:
            return []
        out = []
        todo = [(self.cases[act].succ[0], ())]
        while todo and len(out) < 200:
            i, p = todo.pop()
            n = self.N[i]
            if i in [x.id for x, t in p]:
                continue
            if i in self.skip:
                out.append(('again', p, None))
                continue
            if n.op == 'ret':
                out.append(('ret', p, None))
                continue
            if n.op in ('loopback', 'loophead') and not self.inner(n):
                out.append(('next', p, None))
                continue
            for k, s in enumerate(n.succ):
                todo.append((s, p + ((n, k),)))
        return out

    def inner(self, n):
        l = n.loop if n.op == 'loopback' else n.a
        l = n.a if isinstance(n.a, int) else l
        loop = self.fn.cfg.loops.get(l) if isinstance(self.fn.cfg.loops, dict) else self.fn.cfg.loops[l]
        par = getattr(loop, 'parent', None) if not isinstance(loop, dict) else loop.get('parent')
        return par is not None

    def calls(self, path):
        """Names of the functions called on a path, those called by own functions included."""
        r = []
        for n, k in path:
            for e in nodes_calls(n):
                r.append((n, e))
        return r

    def callee_names(self, e):
        names = {e.get('f', '')}
        for f in self.prog.fns(e.get('f', '')) if e.get('own') or e.get('cls') == 'PPExprParser' else ():
            for g in self.prog.closure([f]):
                for x in self.prog.call_exprs(g):
                    names.add(x.get('f', '') if isinstance(x, dict) else '')
        return names


def nodes_calls(n):
    if n.op == 'call' and isinstance(n.b, dict) and n.b.get('k') in ('call', 'new', 'ctor', 'opcall'):
        return [n.b]
    return []


def value_of(path, upto, e):
    """The constant an expression has on a path: locals and temporaries replaced by what the path gave them last."""
    for _ in range(8):
        if not isinstance(e, dict):
            return e
        if e.get('k') == 'int':
            return e
        if e.get('k') in ('tmp', 'var') and not e.get('g') == 'global':
            hit = None
            for n, k in path[:upto]:
                if n.op in ('assign', 'decl', 'call') and isinstance(n.a, dict):
                    t = n.a
                    if n.op == 'decl' and t.get('id') == e.get('id') and e['k'] == 'var':
                        hit = n.b if isinstance(n.b, dict) else t.get('i')
                    elif t.get('k') == e['k'] and t.get('id') == e.get('id'):
                        hit = n.b
            if hit is None:
                return e
            e = hit
            continue
        if e.get('k') in ('cast', 'conv') and 'e' in e:
            e = e['e']
            continue
        return e
    return e


def field_of(e):
    return e.get('n', '').split('::')[-1] if isinstance(e, dict) and e.get('k') in ('mem', 'var') else ''


def lexer(prog, rep):
    fn = prog.fns(PP + 'yylex')[0]
    dfa = Dfa(prog)
    acts = Actions(prog, fn)
    F = type('F', (), {'fn': fn})()
    tok = {k: v for k, v in ((x['n'].split('::')[-1], x['v']) for x in prog.enums[TAB + 'VariousConstants']['v'])}
    name = {v: k for k, v in tok.items() if k.startswith('T_')}
    cache = {}

    def node(a):
        n = acts.cases.get(a)
        return acts.N[n.succ[0]] if n else None

    def summary(a):
        """Set of what the action may do: (token or None for the next token, start condition set or None), with the paths."""
        if a not in cache:
            r = []
            for kind, p, _ in acts.paths(a):
                t = None
                start = None
                for i, (n, k) in enumerate(p):
                    if n.op == 'retval':
                        v = value_of(p, i, n.a)
                        t = name.get(v.get('v'), 'other') if isinstance(v, dict) and v.get('k') == 'int' else 'other'
                    if n.op == 'assign' and field_of(n.a) == 'yy_start' and isinstance(n.b, dict):
                        v = fold(n.b)
                        start = (v - 1) // 2 if v is not None else 'other'
                r.append((t if kind == 'ret' else None if kind == 'next' else 'again', start, p))
            cache[a] = r
        return cache[a]

    def state(cond):
        return 1 + 2 * cond

    def expect(text, cond, token, goes, what):
        s = dfa.run(state(cond), text)
        a = dfa.act(s)
        r = summary(a) if a else []
        rep.check(bool(r) and all(t == token and (g == goes or g is None and goes == cond) for t, g, p in r), 'C29.token', F, node(a), 'token ' + what,
                  '%s is not read as %s' % (what, token or 'nothing'), None)
        return s, a

    def follow(s):
        return {c for c in range(1, 256) if dfa.next(s, c) is not None} if s is not None else set()

    # operators: longest match
    ops = {t: x for t, (x, l) in BINARY.items()}
    ops.update({t: x for t, x in UNARY.items()})
    ops.update(OTHER)
    for t, x in sorted(ops.items()):
        s, a = expect(x, 0, t, None, x)
        longer = {ord(y[len(x)]) for y in ops.values() if y.startswith(x) and len(y) > len(x)}
        rep.check(follow(s) == longer, 'C29.token', F, node(a), 'longest ' + x, 'the characters that may follow %s in one token are others than those of a longer operator' % x, None)
    # numbers: every run of digits
    def run_of(chars, start, what):
        """States after one or more of the characters."""
        seen, todo = set(), {dfa.next(start, ord(c)) for c in chars}
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            if s is not None:
                todo |= {dfa.next(s, ord(c)) for c in chars}
        return seen
    digits = '0123456789'
    for s in run_of(digits, state(0), 'number'):
        a = dfa.act(s)
        r = summary(a) if a else []
        rep.check(bool(r) and all(t == 'T_NUMBER' and g is None for t, g, p in r), 'C29.token', F, node(a), 'number', 'a run of digits is not read as a number', None)
        for t, g, p in r:
            ok = False
            for i, (n, k) in enumerate(p):
                if n.op == 'assign' and field_of(n.a) == 'num':
                    e = value_of(p, i, n.b)
                    ok = isinstance(e, dict) and e.get('k') == 'call' and mentions(e, 'yytext', p, i)
            rep.check(ok, 'C29.token', F, node(a), 'number value', 'the value of a number is not taken from its digits', None)
    for s in run_of(' \t', state(0), 'blank'):
        a = dfa.act(s)
        r = summary(a) if a else []
        rep.check(bool(r) and all(t is None and g is None for t, g, p in r), 'C29.token', F, node(a), 'blank', 'blanks between tokens are not skipped', None)
    # strings
    def begin(x, what):
        s = dfa.run(state(0), x)
        a = dfa.act(s)
        r = summary(a) if a else []
        conds = {g for t, g, p in r}
        ok = len(conds) == 1 and None not in conds and 0 not in conds and 'other' not in conds and all(t is None for t, g, p in r)
        rep.check(ok, 'C29.token', F, node(a), 'start ' + what, '%s does not start %s' % (x, what), None)
        return (conds.pop() if ok else None), a, r

    def makes(r, what):
        for t, g, p in r:
            ok = any(n.op == 'assign' and field_of(n.a) == 'str' for n, k in p)
            rep.check(ok, 'C29.token', F, None, 'new ' + what, 'the text of %s does not start empty' % what, None)

    def appends(r, cond, arg, what):
        for t, g, p in r:
            ok = t is None and g in (None, cond) and any(e.get('f', '').split('::')[-1] in ('append', 'operator+=', 'push_back') and arg(e, p) for n, e in acts.calls(p))
            rep.check(ok, 'C29.token', F, None, 'text of ' + what, 'a piece of %s is not added to its text as it is' % what, None)

    def raw(e, p):
        return any(mentions(x, 'yytext', p, len(p)) for x in e.get('a', ())[:1])

    def char(c):
        return lambda e, p: any(isinstance(x, dict) and x.get('k') in ('int', 'chr', 'char', 'str') and x.get('v') in (ord(c), c) for x in e.get('a', ())[:1])

    cond, a, r = begin('"', 'a string')
    if cond is not None:
        makes(r, 'a string')
        inside = [chr(c) for c in range(1, 256) if chr(c) not in '"\n']
        for s in run_of(inside, state(cond), 'string'):
            k = dfa.act(s)
            rep.check(k != 0 and '"' not in map(chr, follow(s)), 'C29.token', F, node(k), 'inside a string', 'text in a string is not part of it', None)
            appends(summary(k) if k else [], cond, raw, 'a string')
        k = dfa.act(dfa.run(state(cond), '""'))
        rep.check(k != 0, 'C29.token', F, node(k), 'quote in a string', 'two quotes in a string are no quote', None)
        appends(summary(k) if k else [], cond, char('"'), 'a string')
        s, k = expect('"', cond, 'T_STRING', 0, 'the end of a string')
        rep.check(follow(s) == {34}, 'C29.token', F, node(k), 'after a string', 'a closing quote is not the end of a string', None)
    cond, a, r = begin('[', 'a command')
    if cond is not None:
        makes(r, 'a command')
        inside = [chr(c) for c in range(1, 256) if chr(c) not in '[]^\n']
        for s in run_of(inside, state(cond), 'command'):
            k = dfa.act(s)
            rep.check(k != 0, 'C29.token', F, node(k), 'inside a command', 'text of a command is not part of it', None)
            appends(summary(k) if k else [], cond, raw, 'a command')
        for c in '[]':
            k = dfa.act(dfa.run(state(cond), '^' + c))
            rep.check(k != 0, 'C29.token', F, node(k), '^' + c, '^%s in a command is not %s' % (c, c), None)
            appends(summary(k) if k else [], cond, char(c), 'a command')
        s, k = expect(']', cond, 'T_NUMBER', 0, 'the end of a command')
        for t, g, p in summary(k) if k else ():
            ok = False
            for i, (n, j) in enumerate(p):
                if n.op == 'assign' and field_of(n.a) == 'num':
                    e = value_of(p, i, n.b)
                    ok = isinstance(e, dict) and e.get('k') == 'call' and ('system' in acts.callee_names(e) or '::system' in acts.callee_names(e))
            rep.check(ok, 'C29.token', F, node(k), 'exit status', 'the value of a command is not its exit status', None)

    # DEFINED(...) and EXIST(...)
    def question(p, callee):
        """The number on the path is 1 if the call says yes, and 0 if it says no."""
        asked = None
        for i, (n, k) in enumerate(p):
            for e in nodes_calls(n):
                if any(x.endswith(callee) for x in acts.callee_names(e)):
                    asked = (i, n)
        if asked is None:
            return False
        truth = None
        tmp = asked[1].a.get('id') if isinstance(asked[1].a, dict) else None
        neg_ = False
        for i, (n, k) in enumerate(p):
            if n.op == 'branch' and i > asked[0]:
                e = n.a
                flip = False
                while isinstance(e, dict) and e.get('k') == 'un' and e.get('op') == '!':
                    e, flip = e['e'], not flip
                e = value_of_tmp(p, i, e)
                if isinstance(e, dict) and e.get('k') == 'tmp' and e.get('id') == tmp:
                    truth = (k == 0) != flip
        val = None
        for i, (n, k) in enumerate(p):
            if n.op == 'assign' and field_of(n.a) == 'num':
                val = (i, n.b)
        if val is None:
            return False
        e = value_of(p, val[0], val[1])
        if isinstance(e, dict) and e.get('k') == 'int':
            return truth is not None and (e['v'] == 1) == truth and e['v'] in (0, 1)
        return isinstance(e, dict) and e.get('k') == 'call' and any(x.endswith(callee) for x in acts.callee_names(e))

    def value_of_tmp(p, i, e):
        if isinstance(e, dict) and e.get('k') == 'var' and e.get('g') != 'global':
            for n, k in p[:i]:
                if n.op == 'decl' and n.a.get('id') == e.get('id') and isinstance(n.b, dict):
                    return n.b
                if n.op == 'assign' and isinstance(n.a, dict) and n.a.get('k') == 'var' and n.a.get('id') == e.get('id') and isinstance(n.b, dict):
                    return n.b
        return e

    def balanced(p, callee):
        """The match is cut at the parenthesis that closes the argument before the argument is taken from it."""
        cut = None
        for i, (n, k) in enumerate(p):
            if n.op == 'assign' and field_of(n.a) == 'yyleng':
                cut = i
            for e in nodes_calls(n):
                if e.get('f', '').endswith(callee):
                    return cut is not None and any(prog.fns(x.get('f', '')) and len(x.get('a', ())) == 2 and mentions(x, 'yytext', p, j)
                                                   for j, (m, _) in enumerate(p[:cut]) for x in nodes_calls(m))
        return True

    def answers(a, callee, what, cut):
        r = summary(a) if a else []
        rep.check(bool(r) and all(t == 'T_NUMBER' and g in (None, 0) and question(p, callee) for t, g, p in r), 'C29.question', F, node(a), what,
                  '%s(...) does not yield 1 or 0 for what it asks' % what, None)
        if cut:
            rep.check(all(balanced(p, callee) for t, g, p in r), 'C29.question', F, node(a), 'end of ' + what,
                      '%s(...) takes everything up to the last parenthesis of the expression for its argument' % what, None)
        return r

    def words(w):
        n = len(w)
        for m in range(1 << n):
            yield ''.join(c.lower() if m >> i & 1 else c for i, c in enumerate(w))

    for w, callee, close in (('DEFINED', 'isMacroDefined', ')'), ('EXIST', 'exists', ')')):
        for x in words(w):
            s = dfa.run(state(0), x)
            a = dfa.act(s)
            r = summary(a) if a else []
            conds = {g for t, g, p in r}
            if not (len(conds) == 1 and all(t is None for t, g, p in r) and isinstance(list(conds)[0], int) and list(conds)[0] > 0):
                rep.check(False, 'C29.question', F, node(a), x, '%s does not ask a question' % x, None)
                continue
            rep.ok('C29.question', x)
            starts = {dfa.run(state(list(conds)[0]), '(')}
            b = dfa.run(s, '(')
            if b is not None:
                starts.add(b)
            # any text in the parentheses
            seen, todo = set(), set()
            inner = [c for c in range(1, 256) if chr(c) not in '()\n']
            for s0 in starts:
                todo |= {(dfa.next(s0, c), dfa.act(dfa.run(s0, ''))) for c in inner} if s0 is not None else {(None, 0)}
            todo = {x2[0] for x2 in todo}
            while todo:
                q = todo.pop()
                if q in seen:
                    continue
                seen.add(q)
                if q is None:
                    rep.check(False, 'C29.question', F, node(a), 'argument of ' + w, 'there is text that is no argument of %s(...)' % w, None)
                    continue
                todo |= {dfa.next(q, c) for c in inner}
                e = dfa.next(q, ord(close))
                answers(dfa.act(e), callee, w, w == 'EXIST')
    # the end of the input
    ends = [a for a in acts.cases if a > max(x for x in dfa.accept)]
    for a in ends:
        for t, g, p in summary(a):
            pass
    return len(cache)


def fold(e):
    """The number of a constant expression."""
    if not isinstance(e, dict):
        return None
    if e.get('k') == 'int':
        return e['v']
    if e.get('k') == 'bin':
        a, b = fold(e['a']), fold(e['b'])
        if a is None or b is None:
            return None
        return {'+': a + b, '*': a * b, '-': a - b}.get(e.get('op'))
    if 'e' in e:
        return fold(e['e'])
    return None


def mentions(e, var, path, upto):
    """Does the expression read the variable, directly or by locals of the path?"""
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get('k') in ('var', 'mem') and field_of(x) == var:
                return True
            if x.get('k') in ('tmp', 'var') and (x['k'], x.get('id')) not in seen:
                seen.add((x['k'], x.get('id')))
                for n, k in path[:upto]:
                    if isinstance(n.a, dict) and n.a.get('id') == x.get('id') and n.a.get('k') in (x['k'], 'decl'):
                        todo += [n.b, n.a.get('i')]
            todo += list(x.values())
        elif isinstance(x, list):
            todo += x
    return False


class Grow(Rule):
    """reallocateStack: more room, in both arrays."""

    def enter(self, eng, st, fr):
        if fr.parent is None:
            st.heap[('f', THIS, PP + 'stack_size')] = ('sym', 'size')

    def branch(self, eng, st, fr, node, term, truth):
        t, v = term, truth
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, v = t[2], not v
        if t == ('sym', 'size'):
            st.flags[('zero',)] = not v
        elif t[0] == 'op' and ('sym', 'size') in t and ('c', 0) in t:
            st.flags[('zero',)] = v if t[1] == '==' else not v

    def call(self, eng, st, fr, node, ci):
        if ci.name.split('::')[-1] == 'realloc' and len(ci.args) == 2:
            which = ci.args[0][2] if ci.args[0][0] == 'f' else None
            st.flags[('to', which)] = ci.args[1]
            return [(st, ('sym', 'memory of %s' % which))]

    def write(self, eng, st, fr, node, loc, val, op):
        if loc == ('f', THIS, PP + 'stack_size'):
            k = fold(node.b) if isinstance(node.b, dict) else None
            st.flags[('grow',)] = k is not None and (op == '<<=' and k >= 1 or op == '*=' and k >= 2)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None:
            return
        self.n += 1
        z = st.flags.get(('zero',))
        S = strip_old(st.heap.get(('f', THIS, PP + 'stack_size'), ('c', 0)))
        old = ('sym', 'size')
        p = poly(S)
        if z:
            ok = p is not None and (const(p) or 0) >= 3
        else:
            q = dict(p or {})
            c = q.pop(1, 0)
            ok = st.flags.get(('grow',)) or S[0] == 'op' and S[1] == '<<' and S[2] == old and S[3][0] == 'c' and S[3][1] >= 1 or \
                len(q) == 1 and old in q and (q[old] >= 2 and c >= 0 or q[old] == 1 and c >= 1)
        self.rep.check(ok, 'C29.driver', fr, node, 'growth', 'the stacks of the parser do not grow', st)
        for f, size in (('state_stack', 4), ('sym_stack', 8)):
            a = st.flags.get(('to', PP + f))
            h = st.heap.get(('f', THIS, PP + f))
            ok = a is not None and h == ('sym', 'memory of %s' % (PP + f)) and self.covers(a, S, size)
            self.rep.check(ok, 'C29.driver', fr, node, 'memory of ' + f, 'an array of the parser has less room than the parser relies on', st)

    @staticmethod
    def covers(a, S, size):
        a, S = strip_old(a), strip_old(S)
        x, y = poly(a), poly(S)
        if x is None or y is None:
            return False
        d = padd(x, {k: -size * v for k, v in y.items()})
        return all(v >= 0 for v in d.values())


class Result(Rule):
    """A failed parse is an error; the value is the one of the expression."""

    def inline(self, eng, fn):
        return fn.cls == self.root.cls

    def call(self, eng, st, fr, node, ci):
        s = ci.short.split('::')[-1]
        if s == 'parse':
            st.flags[('tried',)] = True
            return [(st, ('sym', 'parsed'))]
        if s == 'expressionValue':
            return [(st, ('sym', 'value'))]

    def ret(self, eng, st, fr, node, val):
        if fr.parent is None and st.flags.get(('tried',)):
            self.n += 1
            self.rep.check(st.truth(('sym', 'parsed')) is True, 'C29.result', fr, node, 'failed', 'an expression that cannot be evaluated is no error', st)
            self.rep.check(val == ('sym', 'value'), 'C29.result', fr, node, 'value', 'the value of an expression is not the one the parser computed', st)


class Value(Rule):
    def inline(self, eng, fn):
        return fn.cls == 'PPExprParser'

    def enter(self, eng, st, fr):
        st.heap[('f', THIS, PP + 'tos')] = TOP
        st.heap[('f', THIS, PP + 'sym_stack')] = SYMS

    def ret(self, eng, st, fr, node, val):
        if fr.parent is None:
            v, n = strip_old(val), ''
            if v[0] == 'f':
                n = v[2].split('::')[-1]
                v = Drive.base(v)
            self.rep.check(n == 'num' and v[0] == 'elem' and v[1] == SYMS and peq(poly(v[2]), {TOP: 1}), 'C29.result', fr, node, 'top',
                           'the value of an expression is not the one on top of the stack', st)


@check('C29')
def c29(prog, rep):
    rep.rule('C29.grammar', 'The productions give every operator once, from left to right, with unary operators before * / %, these before + -, these before '
             'shifts, these before comparisons, these before && || & |; parentheses hold every expression; strings are compared with == and !=.')
    rep.rule('C29.table', 'The tables are the LALR(1) automaton of the productions (walked state by state), and are looked up as such.')
    rep.rule('C29.driver', 'The parser shifts, reduces, accepts and fails as the tables say; a token is used exactly once.')
    rep.rule('C29.action', 'The action of each production computes the value of its operator from the values of its operands.')
    rep.rule('C29.trap', 'No division is executed whose divisor may be 0, or -1 with the least number.')
    rep.rule('C29.token', 'The automaton of the lexer, walked over its tables, reads every operator (the longest), run of digits, string and command as its '
             'token, and the action of that token makes its value.')
    rep.rule('C29.question', 'DEFINED(x) and EXIST(x), in any case, are 1 if the macro or file exists and 0 otherwise; the argument of EXIST ends at the '
             'parenthesis that closes it.')
    rep.rule('C29.result', 'A failed parse is an error; the value is the one on top of the stack when the end of the expression is accepted.')
    tab = Tables(prog)
    lexer(prog, rep)
    steps, states = grammar(prog, rep, tab)
    look = Lookup(prog, rep)
    look.tab = tab
    run_roots(prog, rep, look, [TAB + 't_action', TAB + 'nt_action'], limit=60)
    g = Grow(prog, rep)
    g.n = 0
    run_roots(prog, rep, g, [PP + 'reallocateStack'], limit=60)
    run_roots(prog, rep, Value(prog, rep), [PP + 'expressionValue'], small=14)
    v = Result(prog, rep)
    v.n = 0
    run_roots(prog, rep, v, [f for f in prog.funcs.values() if f.cls == NS + 'Preprocessor' and
                             any(e.get('f') == PP + 'parse' for e in prog.call_exprs(f))], limit=60)
    rep.require('C29.result', 1)
    m = Drive(prog, rep)
    m.tab = tab
    m.done = set()
    run_roots(prog, rep, m, [PP + 'parse'], steps='all', limit=400)
    rep.check(len(m.done) == len(tab.rules) - 1, 'C29.action', type('S', (), {'fn': m.root})(), None, 'all productions', 'not every production was seen', None)
