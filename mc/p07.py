"""P07: jumps and conditionals."""
from itertools import product
from . import harness as H, algol as A, num
from .deep import Deep
from .p06 import V, N, R, op, pr, txt, SP, NL, INT, REAL


def asg(v, e):
    return (':=', [V(v)], e)


def inc(v):
    return asg(v, op('+', V(v), N(1)))


CTX = ['blk', 'arr', 'cmp', 'for', 'while', 'list', 'if', 'else', 'proc', 'pval', 'func', 'thunk', 'sub', 'forhead', 'rec', 'recf', 'lab', 'bound']
# contexts in which the statements run inside an expression of the outer level
FORMS = ['label', 'cond', 'switch', 'swcond', 'lparam', 'sparam', 'swlocal', 'lcond']


def show(vars_):
    s = []
    for v in vars_:
        s += [SP, pr(V(v))]
    return s


class Build:
    """Nest of contexts.  Level 0 is the program; level i > 0 lies inside context i.
    Every level has a label L<i> before the inner construct and M<i> after it."""

    def __init__(self, ctx, target, form):
        self.ctx, self.target, self.form = ctx, target, form
        self.k = len(ctx)

    def level(self, i, vars_):
        """(declarations, statements) of level i"""
        L, M = 'l%d' % i, 'm%d' % i
        decls = []
        if i < self.k:
            decls, inner = self.construct(i + 1, vars_)
        else:
            inner = self.jump()
        guard = [inc('n'), ('if', op('>', V('n'), N(12)), ('goto', V('stop')))]
        st = [('lab', L, txt('<%d' % i))] + guard + show(vars_) + inner + \
             [('lab', M, txt('>%d' % i))] + guard + show(vars_)
        if self.form == 'swlocal' and self.target[1] == i:
            decls = [('sw', 'sl', [V(M), V(self.tname())])] + decls
        return decls, st

    def tname(self):
        return '%s%d' % self.target

    def jump(self):
        t = V(self.tname())
        f = self.form
        if f == 'label':
            g = ('goto', t)
        elif f == 'cond':
            g = ('goto', ('if', op('>', V('c'), N(0)), t, V('stop')))
        elif f == 'switch':
            g = ('goto', ('s', 'sw', [op('+', V('one'), N(1))]))
        elif f == 'swlocal':
            g = ('goto', ('s', 'sl', [op('+', V('one'), N(1))]))
        elif f == 'swcond':
            g = ('goto', ('s', 'sw', [N(3)]))
        elif f == 'lparam':
            g = ('call', 'jl', [t])
        elif f == 'lcond':
            g = ('call', 'jl', [('if', op('>', ('c', 'fact', [N(2)]), N(1)), t, V('stop'))])
        else:
            g = ('call', 'js', [V('sw'), N(2)])
        return [('if', op('<', V('c'), N(2)), ('cmp', [inc('c'), g, txt('?')]))]

    def construct(self, i, vars_):
        """statements of level i-1 holding context i; declarations for level i-1"""
        k = self.ctx[i - 1]
        v = 'v%d' % i
        if k in ('cmp', 'if', 'else', 'for', 'while', 'list'):
            d, st = self.level(i, vars_)
            body = ('blk', d, st) if d else ('cmp', st)
            if k == 'cmp':
                return [], [body]
            if k == 'if':
                return [], [('if', op('>', V('one'), N(0)), body, txt('no'))]
            if k == 'else':
                return [], [('if', op('>', V('one'), N(1)), txt('no'), body)]
            w = 'w%d' % i
            if k == 'for':
                el = [('su', N(1), N(1), N(2))]
            elif k == 'while':
                el = [('w', op('+', V(w), N(1)), op('<', V(w), N(3)))]
            else:
                el = [('e', N(1)), ('e', N(2))]
            return [('var', INT, [w])], [asg(w, N(0)), ('for', V(w), el, body)]
        d, st = self.level(i, vars_ + [v])
        own = [('var', INT, [v])]
        init = [asg(v, N(i * 10))]
        if k == 'blk':
            return [], [('blk', own + d, init + st)]
        if k == 'arr':
            return [], [('blk', own + [('arr', INT, ['a%d' % i], [(N(1), op('+', V('one'), N(i)))]), ('arr', REAL, ['r%d' % i], [(V('one'), N(2))])] + d,
                         init + [(':=', [('s', 'a%d' % i, [N(1)])], N(i)), (':=', [('s', 'r%d' % i, [N(2)])], N(i))] + st +
                         [SP, pr(op('+', ('s', 'a%d' % i, [N(1)]), ('s', 'r%d' % i, [N(2)])))])]
        p = 'p%d' % i
        if k == 'proc':
            return [('proc', None, p, [], ('blk', own + d, init + st))], [('call', p, [])]
        if k == 'pval':
            return [('proc', None, p, [(v, INT, True), ('z%d' % i, REAL, True)], ('blk', d, st) if d else ('cmp', st))], [('call', p, [N(i * 10), R('2.5')])]
        if k in ('func', 'sub', 'forhead', 'bound'):
            f = ('proc', INT, p, [], ('blk', own + d, init + [asg(p, N(1))] + st))
            if k == 'func':
                return [f], [asg('x', op('+', op('×', N(2), N(3)), op('×', V(p), N(1)))), SP, pr(V('x'))]
            if k == 'sub':
                return [f], [(':=', [('s', 'b', [op('+', V(p), N(1))])], op('+', N(4), N(i)))]
            if k == 'bound':
                return [f], [('blk', [('arr', INT, ['u'], [(N(0), V(p))])], [(':=', [('s', 'u', [N(1)])], N(6)), SP, pr(('s', 'u', [N(1)]))])]
            return [('var', INT, ['w%d' % i]), f], [('for', V('w%d' % i), [('su', V(p), N(1), op('+', V(p), N(1)))], ('cmp', [SP, pr(V('w%d' % i))]))]
        if k == 'thunk':
            f = ('proc', INT, p, [], ('blk', own + d, init + [asg(p, N(1))] + st))
            return [f], [('call', 'byname', [op('+', V('one'), V(p))])]
        if k == 'rec':
            return [('proc', None, p, [('d%d' % i, INT, True)], ('blk', own + d, [asg(v, op('+', N(i * 10), V('d%d' % i))), ('if', op('>', V('d%d' % i), N(0)), ('call', p, [op('-', V('d%d' % i), N(1))]), ('cmp', st)), txt('r'), SP, pr(V(v))]))], \
                [('call', p, [N(2)])]
        if k == 'recf':
            # the label of the outermost activation is passed down
            return [('proc', None, p, [('d%d' % i, INT, True), ('e%d' % i, 'label', False)],
                     ('blk', own + d, [asg(v, op('+', N(i * 10), V('d%d' % i))), ('if', op('=', V('d%d' % i), N(2)), ('call', p, [N(1), V('q%d' % i)]), ('if', op('=', V('d%d' % i), N(1)), ('call', p, [N(0), V('e%d' % i)]), ('cmp', st + [('if', op('<', V('c'), N(3)), ('cmp', [inc('c'), ('goto', V('e%d' % i))]))]))),
                                       ('lab', 'q%d' % i, txt('q')), SP, pr(V(v))]))], [('call', p, [N(2), V('stop')])]
        if k == 'lab':
            return [('proc', None, p, [('e%d' % i, 'label', False)], ('blk', own + d, init + st + [('if', op('<', V('c'), N(2)), ('cmp', [inc('c'), ('goto', V('e%d' % i))]))]))], [('call', p, [V('m%d' % (i - 1))])]
        raise ValueError(k)

    def program(self):
        t = V(self.tname())
        d, st = self.level(0, ['v0'])
        byname = ('proc', None, 'byname', [('x', INT, False)], ('blk', [('var', INT, ['v1', 'y'])], [asg('v1', N(99)), asg('y', op('+', V('x'), N(1))), SP, pr(V('y'))]))
        jl = ('proc', None, 'jl', [('l', 'label', False)], ('blk', [('var', INT, ['v0', 'v1', 'v2'])], [asg('v0', N(97)), asg('v1', N(97)), asg('v2', N(97)), ('goto', V('l'))]))
        js = ('proc', None, 'js', [('s', 'switch', False), ('k', INT, True)], ('blk', [('var', INT, ['v0'])], [asg('v0', N(97)), ('goto', ('s', 's', [V('k')]))]))
        fact = ('proc', INT, 'fact', [('k', INT, True)], asg('fact', ('if', op('<', V('k'), N(2)), N(1), op('×', V('k'), ('c', 'fact', [op('-', V('k'), N(1))])))))
        decls = [('var', INT, ['n', 'c', 'v0', 'x', 'one', 'i']), ('arr', INT, ['b'], [(N(1), N(3))])]
        if self.form in ('switch', 'swcond', 'sparam'):
            decls.append(('sw', 'sw', [V('stop'), t, ('if', op('>', V('one'), N(0)), ('s', 'sw', [N(2)]), V('stop'))]))
        init = [asg('n', N(0)), asg('c', N(0)), asg('v0', N(5)), asg('one', N(1)), asg('x', N(0))] + [(':=', [('s', 'b', [N(j)])], N(j)) for j in (1, 2, 3)]
        end = [('lab', 'stop', txt('='))] + show(['v0', 'x', 'c', 'n']) + \
            sum([[SP, pr(('s', 'b', [N(j)]))] for j in (1, 2, 3)], []) + \
            [('for', V('i'), [('su', N(1), N(1), N(3))], ('cmp', [SP, pr(op('+', op('×', V('i'), N(2)), ('c', 'fact', [V('i')])))]))]
        return ('blk', decls + [byname, jl, js, fact] + d, init + st + end)


def visible(ctx, target):
    return True


class Jumps(H.Space):
    name = 'jumps'
    rule = 'all nests of 1..2 (3) contexts from a menu of 18 x jump from the innermost level to each label of each level x 8 forms of jump'

    def descs(self, tier):
        for k in (1, 2):
            for c in product(CTX, repeat=k):
                for form in FORMS:
                    for lv in range(k + 1):
                        if form in ('switch', 'swcond', 'sparam') and lv > 0:
                            continue
                        for lab in 'lm':
                            yield c, (lab, lv), form
        sub = ['arr', 'for', 'func', 'thunk', 'rec', 'blk', 'recf', 'pval', 'forhead'] if tier == 'quick' else CTX
        forms = ['label', 'lparam', 'lcond'] if tier == 'quick' else FORMS
        for c in product(sub, repeat=3):
            for form in forms:
                for lv in range(4):
                    if form in ('switch', 'swcond', 'sparam') and lv > 0:
                        continue
                    for lab in 'lm' if tier != 'quick' else 'm':
                        yield c, (lab, lv), form

    def case(self, d):
        p = Build(*d).program()
        it = A.Interp(maxsteps=4000)
        try:
            st, out = it.run(p)
        except (A.Undef, A.TooLong):
            return None
        src = A.source(p)
        return H.Case('%s:%s %s%d %s' % (self.name, '+'.join(d[0]), d[1][0], d[1][1], d[2]), [H.prog_req(src)], H.expect_run(st, out), src, it.steps, it.steps)


# ------------------------------------------------------------ conditionals
def shapes(depth):
    """all if statements up to the given nesting depth"""
    if depth == 0:
        return ['s']
    r = ['s']
    low = shapes(depth - 1)
    for a in low:
        if a == 's' or True:
            r.append(('it', a))
        for b in low:
            r.append(('ite', a, b))
    return r


LEAF = ['asg', 'call', 'cmp', 'blk', 'for', 'goto', 'none', 'lab']


class Conds(H.Space):
    name = 'conditionals'
    rule = 'all shapes of conditional statements up to depth 2 (3 in part) x kinds of statement between then and else; each run for all combinations of the conditions'

    def descs(self, tier):
        for s in shapes(2):
            for l in LEAF:
                for e in ('plain', 'comp'):
                    yield s, l, e
        if tier != 'quick':
            for s in shapes(3):
                yield s, 'asg', 'plain'
        for f in ('chain', 'expr', 'bool', 'desig'):
            for k in range(1, 9 if tier == 'quick' else 14):
                yield f, k, ''

    def case(self, d):
        if isinstance(d[0], str) and d[0] != 's':
            return self.chain(d)
        shape, leaf, wrap = d
        self.nc = 0
        self.nl = 0

        def cond():
            self.nc += 1
            c = V('c%d' % self.nc)
            return c if self.nc % 3 else ('u', '¬', c) if self.nc % 2 else op('∧', c, ('b', True))

        def lf():
            self.nl += 1
            m = [SP, pr(N(self.nl))]
            if leaf == 'asg':
                return asg('t', op('+', op('×', V('t'), N(10)), N(self.nl)))
            if leaf == 'call':
                return ('call', 'print', [N(self.nl)])
            if leaf == 'cmp':
                return ('cmp', m)
            if leaf == 'blk':
                return ('blk', [('var', INT, ['k'])], [asg('k', N(self.nl)), SP, pr(V('k'))])
            if leaf == 'for':
                return ('cmp', [('for', V('j'), [('e', N(self.nl)), ('e', N(7))], pr(V('j')))])
            if leaf == 'goto':
                return ('goto', V('e%d' % (self.nl % 3)))
            if leaf == 'lab':
                return ('lab', 'z%d' % self.nl, pr(N(self.nl)))
            return ('nop',)

        def mk(s):
            if s == 's':
                return lf()
            c = cond()
            a = mk(s[1])
            if a[0] == 'if' or (leaf == 'for' and a[0] == 'for') or wrap == 'comp':
                a = ('cmp', [a])      # then may not be followed by if
            if s[0] == 'it':
                return ('if', c, a)
            b = mk(s[2])
            if wrap == 'comp':
                b = ('cmp', [b])
            return ('if', c, a, b)
        st = mk(shape)
        n = self.nc
        if n > 5:
            return None
        vs = ['c%d' % i for i in range(1, n + 1)]
        body = [asg('t', N(0)), st, ('lab', 'e0', txt('a')), ('lab', 'e1', txt('b')), ('lab', 'e2', txt(';')), SP, pr(V('t')), NL]
        for i in range(n, 0, -1):
            f = 'f%d' % i
            body = [('for', V(f), [('e', N(0)), ('e', N(1))], ('cmp', [asg('c%d' % i, op('=', V(f), N(1)))] + body))]
        p = ('blk', [('var', INT, ['t', 'j'] + ['f%d' % i for i in range(1, n + 1)])] + ([('var', 'boolean', vs)] if vs else []), [asg('j', N(0))] + body)
        it = A.Interp(maxsteps=20000)
        s, out = it.run(p)
        src = A.source(p)
        return H.Case('%s:%r %s %s' % (self.name, shape, leaf, wrap), [H.prog_req(src)], H.expect_run(s, out), src, it.steps, it.steps)

    def chain(self, d):
        f, k, _ = d
        i = V('i')
        if f == 'chain':
            s = ('call', 'print', [N(99)])
            for j in range(k, 0, -1):
                s = ('if', op('=', i, N(j)), ('call', 'print', [N(j)]), s)
            body = [s]
        elif f in ('expr', 'bool'):
            e = N(99) if f == 'expr' else ('b', False)
            for j in range(k, 0, -1):
                e = ('if', op('=', i, N(j)), N(j * 3) if f == 'expr' else op('=', V('t'), N(j)), e)
            body = [asg('t', e), SP, pr(V('t'))] if f == 'expr' else [asg('t', N(k // 2 + 1)), ('if', e, txt('y'), txt('n'))]
        else:
            e = V('e0')
            for j in range(k, 0, -1):
                e = ('p', ('if', op('=', i, N(j)), V('d%d' % j), e))
            while e[0] == 'p':
                e = e[1]
            body = [('goto', e)] + [('lab', 'd%d' % j, txt('d%d' % j)) for j in range(1, k + 1)] + [('lab', 'e0', txt('e'))]
        p = ('blk', [('var', INT, ['i', 't'])], [('for', i, [('su', N(0), N(1), N(k + 1))], ('cmp', body + [NL]))])
        it = A.Interp(maxsteps=20000)
        s, out = it.run(p)
        src = A.source(p)
        return H.Case('%s:%s %d' % (self.name, f, k), [H.prog_req(src)], H.expect_run(s, out), src, it.steps, it.steps)


# ---------------------------------------------------------------- switches
EL = {'a': V('a'), 'b': V('b'), 'o': V('o'), 'cond': ('if', op('>', V('t'), N(0)), V('a'), V('o')), 'cond2': ('if', op('<', V('t'), N(0)), V('b'), ('p', ('if', V('q'), V('a'), V('o')))),
      'sw': ('s', 'u', [V('t')]), 'swe': ('s', 'u', [op('+', V('t'), ('c', 'f', [N(1)]))]), 'swc': ('if', V('q'), ('s', 'u', [N(1)]), V('b')), 'side': ('s', 'u', [V('g')])}
IDX = {'var': V('i'), 'expr': op('-', op('×', V('i'), N(2)), V('i')), 'real': V('x'), 'call': ('c', 'f', [V('i')]), 'elem': ('s', 'w', [V('i')]), 'name': V('nm'), 'cond': ('if', V('q'), V('i'), N(1)), 'power': op('↑', V('i'), N(1)),
       'frac': op('+', V('x'), R('.4')), 'frac2': op('-', V('x'), R('.4'))}


class Switches(H.Space):
    name = 'switches'
    rule = 'all switch lists of length 1..2 (3) from 9 kinds of element x 10 kinds of index x where the switch is used (its block, an inner block, a procedure, through a parameter)'

    def descs(self, tier):
        for n in (1, 2) if tier == 'quick' else (1, 2, 3):
            for e in product(EL, repeat=n):
                for x in IDX:
                    for w in ('here', 'inner', 'proc', 'param', 'param2', 'rec'):
                        for i in range(1, n + 1):
                            if n < 3 or i == n:
                                yield e, x, w, i

    def case(self, d):
        e, x, w, i = d
        f = ('proc', INT, 'f', [('k', INT, True)], asg('f', V('k')))
        g = ('proc', INT, 'g', [], ('cmp', [inc('z'), asg('g', N(2))]))
        gs = ('goto', ('s', 's', [IDX[x]]))
        decl = [('var', INT, ['i', 't', 'z']), ('var', REAL, ['x']), ('var', 'boolean', ['q']), ('arr', INT, ['w'], [(N(1), N(3))])]
        init = [asg('z', N(0)), asg('i', N(i)), asg('x', N(i)), asg('t', N(1)), asg('q', ('b', True))] + [(':=', [('s', 'w', [N(j)])], N(j)) for j in (1, 2, 3)]
        sws = [('sw', 'u', [V('b'), V('a')]), ('sw', 's', [EL[k] for k in e])]
        if w == 'here':
            use = [gs]
        elif w == 'inner':
            use = [('blk', [('var', INT, ['a', 'b', 't'])], [asg('t', N(0)), gs])]
        elif w == 'proc':
            use = [('call', 'p', [])]
        elif w == 'rec':
            use = [('call', 'rp', [N(2)])]
        elif w == 'param':
            use = [('call', 'ps', [V('s')])]
        else:
            use = [('call', 'pps', [V('s')])]
        procs = [('proc', None, 'p', [], ('blk', [('var', INT, ['a', 'b', 't'])], [asg('t', N(0)), gs])),
                 ('proc', None, 'rp', [('n', INT, True)], ('blk', [('var', INT, ['a', 'b', 't'])], [asg('t', N(0)), ('if', op('>', V('n'), N(0)), ('call', 'rp', [op('-', V('n'), N(1))]), gs)])),
                 ('proc', None, 'ps', [('s', 'switch', False)], ('blk', [('var', INT, ['a', 't'])], [asg('t', N(0)), gs])),
                 ('proc', None, 'pps', [('y', 'switch', False)], ('blk', [('var', INT, ['a'])], [asg('a', N(0)), ('call', 'ps', [V('y')])]))]
        if w != 'here':
            procs = [q for q in procs if q[2] == {'proc': 'p', 'rec': 'rp', 'param': 'ps', 'param2': 'ps'}.get(w) or (w == 'param2' and q[2] == 'pps')]
        else:
            procs = []
        if x == 'name':
            # the index is a name parameter
            if w != 'here':
                return None
            procs = [('proc', None, 'pn', [('nm', INT, False)], gs)]
            use = [('call', 'pn', [op('+', V('i'), N(0))])]
        body = use + [txt('none'), ('lab', 'a', txt('A')), SP, pr(op('+', V('t'), N(10))), ('lab', 'b', txt('B')), SP, pr(op('+', V('t'), N(20)))]
        p = ('blk', decl + [f, g], init + [('blk', sws + procs, body), ('lab', 'o', txt('O')), SP, pr(V('z'))])
        it = A.Interp(maxsteps=20000)
        try:
            s, out = it.run(p)
        except (A.Undef, A.TooLong):
            return None
        src = A.source(p)
        return H.Case('%s:%s %s %s %d' % (self.name, ','.join(e), x, w, i), [H.prog_req(src)], H.expect_run(s, out), src, it.steps, it.steps)


class Graphs(H.Space):
    """control-flow graphs: n labelled nodes; every node jumps by a fixed rule"""
    name = 'flow-graphs'
    pack = 8
    rule = 'all control-flow graphs of 3 labelled statements, each with an unconditional or a conditional pair of successors (go to label / fall through / stop)'

    def descs(self, tier):
        succ = [('f',), ('g', 0), ('g', 1), ('g', 2), ('g', 3)]
        node = [(a,) for a in succ] + [(a, b) for a in succ[1:] for b in succ if a != b]
        n = 3
        if tier == 'quick':
            node = node[:5] + [x for x in node[5:] if x[1] == ('f',) or x[0] == ('g', 0)]
        for g in product(node, repeat=n):
            yield g

    def model(self, g):
        out = []
        pc, k, steps = 0, 0, 0
        while pc < 3:
            steps += 1
            out.append(str(pc))
            k += 1
            if k > 7:
                pc = 3
                break
            nd = g[pc]
            s = nd[0] if len(nd) == 1 or k % 2 == 1 else nd[1]
            pc = pc + 1 if s[0] == 'f' else s[1]
        return 'ok', ''.join(out) + '.', steps, steps

    def program(self, gs):
        s = '_b_e_g_i_n _i_n_t_e_g_e_r k;\n'
        for j, g in enumerate(gs):
            s += '_b_e_g_i_n _i_n_t_e_g_e_r z; k := 0;\n'
            for i, nd in enumerate(g):
                def t(x):
                    return '' if x[0] == 'f' else '_g_o_t_o n%d' % x[1]
                s += "n%d: PRINTTEXT(`%d'); k := k + 1; _i_f k > 7 _t_h_e_n _g_o_t_o n3;\n" % (i, i)
                if len(nd) == 1:
                    s += t(nd[0]) + ';\n'
                else:
                    s += '_i_f EVEN(k) < 0 _t_h_e_n ' + t(nd[0]) + ' _e_l_s_e ' + (t(nd[1]) or '_b_e_g_i_n _e_n_d') + ';\n'
            s += "n3: PRINTTEXT(`.'); NLCR _e_n_d%s\n" % (';' if j < len(gs) - 1 else '')
        return s + '_e_n_d\n'

    def describe(self, g):
        return repr(g)


class SwitchRange(H.Space):
    name = 'switch-range'
    rule = 'index n+1 of a switch with n = 1..4 elements (a go to statement with an undefined switch designator is a dummy statement)'

    def descs(self, tier):
        return iter(range(1, 5))

    def case(self, n):
        src = "_b_e_g_i_n _s_w_i_t_c_h s := %s; _g_o_t_o s[%d]; PRINTTEXT(`dummy'); _g_o_t_o e; %s e: _e_n_d\n" % (
            ','.join('l%d' % i for i in range(n)), n + 1, ' '.join("l%d: PRINTTEXT(`%d'); _g_o_t_o e;" % (i, i) for i in range(n)))
        return H.Case('switch-range:%d' % n, [H.prog_req(src, cpu=2)], H.expect_run('ok', 'dummy'), src)


def main(tier):
    return H.check('P07', [Jumps(), Conds(), Switches(), Graphs(), SwitchRange(), Deep([Jumps(), Conds(), Switches()])], tier)
