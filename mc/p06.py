"""P06: for statements run their body exactly as Algol 60 prescribes."""
from fractions import Fraction as F
from itertools import product
from . import harness as H, algol as A, num


def V(n):
    return ('v', n)


def N(n):
    return ('n', n)


def R(t):
    return ('r', t)


def op(o, a, b):
    return ('o', o, a, b)


def pr(e):
    return ('call', 'print', [e])


def txt(t):
    return ('call', 'PRINTTEXT', [('str', t)])


SP = ('call', 'SPACE', [N(1)])
NL = ('call', 'NLCR', [])
INT, REAL = 'integer', 'real'

# for-list elements; X is replaced by the controlled variable
X = ('X',)
ELEMS = {
    'one': ('e', N(5)), 'expr': ('e', op('+', X, N(1))), 'call': ('e', ('c', 'f', [N(3)])), 'real': ('e', R('2.25')),
    'up': ('su', N(1), N(1), N(3)), 'down': ('su', N(3), N(-1), N(1)), 'none': ('su', N(1), N(1), N(0)), 'none-down': ('su', N(1), N(-1), N(2)),
    'step2': ('su', N(1), N(2), N(6)), 'down2': ('su', N(5), N(-2), N(-1)), 'vars': ('su', V('p'), V('s'), V('q')),
    'limit-var': ('su', N(1), N(1), V('q')), 'self': ('su', X, N(1), op('+', V('q'), N(2))), 'calls': ('su', ('c', 'f', [N(1)]), ('c', 'g', []), ('c', 'f', [N(4)])),
    'limit-self': ('su', N(1), N(1), op('-', N(5), X)), 'limit-self2': ('su', N(6), N(-1), op('÷', V('q'), N(2))), 'limit-x': ('su', N(1), N(1), op('÷', op('+', V('q'), N(5)), N(2))), 'zero': ('su', N(2), N(0), N(5)), 'once': ('su', N(4), N(1), N(4)),
    'fine': ('su', N(0), R('.5'), R('1.5')), 'fine-down': ('su', N(1), R('-.25'), N(0)),
    'while': ('w', op('+', X, N(1)), op('<', X, N(5))), 'while-false': ('w', N(9), ('b', False)), 'while-x2': ('w', op('×', X, N(2)), op('<', X, N(20))),
    'while-var': ('w', V('q'), op('≠', V('n'), N(6))), 'while-call': ('w', ('c', 'f', [X]), op('∧', op('<', V('n'), N(4)), op('>', X, N(0)))),
}
# the step depends on the controlled variable
SELFSTEP = {'step-x': ('su', N(1), X, N(9)), 'cond': ('su', N(1), ('if', op('>', X, N(2)), N(2), N(1)), N(6)),
            'turn': ('su', N(1), op('-', N(3), X), N(9)), 'cond-down': ('su', N(6), ('if', op('>', X, N(3)), N(-2), N(-1)), N(0))}


def sub(e, x):
    if e == X:
        return x
    if isinstance(e, tuple):
        return tuple(sub(y, x) for y in e)
    if isinstance(e, list):
        return [sub(y, x) for y in e]
    return e


# controlled variables: name -> (expression, type, where)
VARS = {
    'static': (V('gi'), INT, 0), 'static-real': (V('gr'), REAL, 0), 'local': (V('li'), INT, 1), 'local-real': (V('lr'), REAL, 1),
    'elem': (('s', 'a', [N(2)]), INT, 0), 'elem-var': (('s', 'a', [V('k')]), INT, 0), 'elem-dyn': (('s', 'b', [V('k')]), REAL, 1),
    'name': (V('nm'), INT, 1), 'name-real': (V('nr'), REAL, 1), 'name-elem': (V('ne'), INT, 1), 'value': (V('vp'), INT, 1),
    'name-local': (V('nl'), INT, 2),
}


def body(kind, x, tag='t'):
    """loop bodies; every one prints the controlled variable"""
    show = [SP, pr(x), (':=', [V('n')], op('+', V('n'), N(1))), ('if', op('>', V('n'), N(9)), ('goto', V('out')))]
    b = {
        'print': [],
        'bump': [('if', op('=', V('n'), N(2)), (':=', [x], op('+', x, N(1))))],
        'limit': [('if', op('=', V('n'), N(1)), (':=', [V('q')], op('+', V('q'), N(1))))],
        'step': [('if', op('=', V('n'), N(2)), (':=', [V('s')], op('-', N(0), V('s'))))],
        'out': [('if', op('=', V('n'), N(2)), ('goto', V('out')))],
        'block': [('blk', [('var', INT, ['z', 'gi']), ('arr', INT, ['w'], [(N(1), V('n'))])], [(':=', [V('gi')], N(77)), (':=', [('s', 'w', [V('n')])], N(3)), (':=', [V('z')], ('s', 'w', [V('n')])), SP, pr(V('z'))])],
        'nested': [('for', V('m'), [('su', N(1), N(1), N(2))], ('cmp', [SP, pr(op('+', op('×', x, N(10)), V('m')))]))],
        'nested-while': [(':=', [V('m')], N(0)), ('for', V('m'), [('w', op('+', V('m'), N(1)), op('<', V('m'), N(3))), ('e', N(8))], ('cmp', [SP, pr(V('m'))]))],
        'skip': [('if', op('=', V('n'), N(2)), ('goto', V('next'))), txt('+'), ('lab', 'next', ('nop',))],
        'proc': [('call', 'loop', [])],
        'func': [SP, pr(('c', 'h', [x]))],
        'out-nested': [('for', V('m'), [('su', N(1), N(1), N(5))], ('if', op('∧', op('=', V('m'), N(3)), op('=', V('n'), N(2))), ('goto', V('out')), ('cmp', [SP, pr(V('m'))])))],
    }[kind]
    return ('cmp', show + b)


BODIES = ['print', 'bump', 'limit', 'step', 'out', 'block', 'nested', 'nested-while', 'skip', 'proc', 'func', 'out-nested']


def program(forst, after):
    """the for statement at the right place of the skeleton"""
    loop = ('proc', None, 'loop', [], ('blk', [('var', INT, ['gi'])], [('for', V('gi'), [('e', N(7)), ('su', N(1), N(1), N(2))], ('cmp', [SP, pr(V('gi'))]))]))
    f = ('proc', INT, 'f', [('x', INT, True)], ('cmp', [txt('f'), (':=', [V('f')], V('x'))]))
    g = ('proc', INT, 'g', [], (':=', [V('g')], N(1)))
    h = ('proc', INT, 'h', [('x', INT, True)], ('blk', [('var', INT, ['i', 'r'])], [(':=', [V('r')], N(0)),
         ('for', V('i'), [('su', N(1), N(1), N(3)), ('e', N(10))], (':=', [V('r')], op('+', V('r'), op('×', V('i'), V('x'))))), (':=', [V('h')], V('r'))]))
    init = [(':=', [V(v)], N(c)) for v, c in (('gi', 2), ('k', 2), ('n', 0), ('m', 0), ('p', 1), ('q', 3), ('s', 1))] + [(':=', [V('gr')], R('1.5'))]
    init += [(':=', [('s', 'a', [N(i)])], N(c)) for i, c in ((1, 11), (2, 2), (3, 13))]
    tail = [('lab', 'out', txt('/'))] + after
    inner = ('proc', None, 'inner', [('nl', INT, False)], ('blk', [], [forst[2] if forst[2] else ('nop',)] + ([('lab', 'out', txt('/'))] + after if forst[2] else [])))
    outer = ('proc', None, 'outer', [('vp', INT, True), ('nm', INT, False), ('nr', REAL, False), ('ne', INT, False)],
             ('blk', [('var', INT, ['li']), ('var', REAL, ['lr']), ('arr', REAL, ['b'], [(N(0), N(3))]), inner],
              [(':=', [V('li')], N(2)), (':=', [V('lr')], R('.5')), (':=', [('s', 'b', [N(1)])], N(1)), (':=', [('s', 'b', [N(2)])], N(2)), (':=', [('s', 'b', [N(3)])], N(3))]
              + ([('call', 'inner', [V('li')])] if forst[2] else [])
              + ([forst[1]] + tail if forst[1] else [])))
    call = ('call', 'outer', [N(2), V('gi'), V('gr'), ('s', 'a', [V('k')])])
    st = init + ([call] if forst[1] or forst[2] else [forst[0]] + tail) + [txt('.'), SP] + \
        sum([[pr(('s', 'a', [N(i)])), SP] for i in (1, 3)], []) + [pr(V('n')), SP, pr(V('k')), SP, pr(V('q'))]
    return ('blk', [('var', INT, ['gi', 'k', 'n', 'm', 'p', 'q', 's']), ('var', REAL, ['gr']), ('arr', INT, ['a'], [(N(1), N(3))]),
                    loop, f, g, h, outer], st)


class Loops(H.Space):
    pack = 1

    def make(self, d):
        raise NotImplementedError

    def case(self, d):
        p = self.make(d)
        it = A.Interp(maxsteps=4000)
        try:
            st, out = it.run(p)
        except (A.Undef, A.TooLong):
            return None
        src = A.source(p)
        return H.Case(self.name + ':' + ' '.join(map(str, d)), [H.prog_req(src)], H.expect_run(st, out), src, it.steps, it.steps)


def place(where, st):
    r = [None, None, None]
    r[where] = st
    return r


class Lists(Loops):
    name = 'for-lists'
    rule = 'all for lists up to the length bound from a menu of 26 elements x 12 kinds of controlled variable x 12 kinds of body'

    def descs(self, tier):
        es = list(ELEMS)
        for v in VARS:
            for b in BODIES:
                for e in es:
                    yield (v, b, e)
        for v in VARS:
            for b in (['print', 'bump', 'nested'] if tier == 'quick' else BODIES):
                for e in product(es, repeat=2):
                    yield (v, b) + e
        for v in ('static', 'local-real', 'name-elem') if tier == 'quick' else VARS:
            menu = ['one', 'up', 'none', 'while', 'fine', 'step2'] if tier == 'quick' else ['one', 'expr', 'up', 'none', 'while', 'fine', 'step2', 'vars', 'while-false', 'down']
            for e in product(menu, repeat=3):
                yield (v, 'print') + e

    def make(self, d):
        v, b, es = d[0], d[1], d[2:]
        x, ty, where = VARS[v]
        st = ('for', x, [sub(ELEMS[e], x) for e in es], body(b, x))
        return program(place(where, st), [SP, pr(x)] if b in ('out', 'out-nested') and es[0] not in ('none', 'none-down', 'while-false') and False else [])


class SelfStep(Loops):
    name = 'self-step'
    rule = 'steps that depend on the controlled variable itself, alone and after another element'

    def descs(self, tier):
        for v in ('static', 'local-real', 'name-elem'):
            for e in SELFSTEP:
                for pre in ('', 'one', 'down2', 'up', 'none'):
                    yield (v, pre, e)

    def make(self, d):
        v, pre, e = d
        x, ty, where = VARS[v]
        els = [ELEMS[pre]] if pre else []
        st = ('for', x, [sub(q, x) for q in els + [SELFSTEP[e]]], body('print', x))
        return program(place(where, st), [])


class OutValue(Loops):
    name = 'value-after-jump'
    rule = 'the controlled variable keeps its value when a go to leaves the loop, for all elements and variables and every iteration at which it leaves'

    def descs(self, tier):
        for v in VARS:
            for e in ELEMS:
                for k in (1, 2, 3):
                    yield (v, e, k)

    def make(self, d):
        v, e, k = d
        x, ty, where = VARS[v]
        bd = ('cmp', [SP, pr(x), (':=', [V('n')], op('+', V('n'), N(1))), ('if', op('=', V('n'), N(k)), ('goto', V('out2')))])
        st = ('for', x, [sub(ELEMS[e], x)], bd)
        st = ('cmp', [st, txt('exhausted'), (':=', [x], N(0)), ('lab', 'out2', txt('>'))])
        # labels of the compound belong to the enclosing block
        return program(place(where, st), [SP, pr(x)])


class Nested(Loops):
    name = 'nested-loops'
    rule = 'all nestings of 2 (3) for statements over element kinds and controlled variables, including the same variable at two levels; jumps out of each level to each level'

    def descs(self, tier):
        es = ['up', 'down', 'none', 'one', 'while', 'fine', 'vars', 'step2']
        vs = ['static', 'local', 'name-elem', 'local-real', 'elem-dyn'] if tier == 'quick' else list(VARS)
        for v1 in vs:
            for v2 in vs:
                if VARS[v1][2] == 2 or VARS[v2][2] == 2:
                    continue
                for e1 in es:
                    for e2 in es:
                        for k in range(6):
                            yield (v1, v2, e1, e2, k)

    def make(self, d):
        v1, v2, e1, e2, k = d
        x1, t1, w1 = VARS[v1]
        x2, t2, w2 = VARS[v2]
        n = V('n')
        cnt = (':=', [n], op('+', n, N(1)))
        lim = ('if', op('>', n, N(20)), ('goto', V('out')))
        inb = [cnt, lim, SP, pr(op('+', op('×', x1, N(10)), x2))]
        inner = ('for', x2, [sub(ELEMS[e2], x2)], ('cmp', inb))
        if k == 0:
            st = ('for', x1, [sub(ELEMS[e1], x1)], inner)
        elif k == 1:
            st = ('for', x1, [sub(ELEMS[e1], x1)], ('cmp', [cnt, lim, SP, pr(x1), inner, txt(';')]))
        elif k == 2:
            st = ('for', x1, [sub(ELEMS[e1], x1)], ('cmp', [inner, ('for', x2, [sub(ELEMS[e1], x2)], ('cmp', [cnt, lim, SP, pr(x2)]))]))
        elif k == 3:
            inb.append(('if', op('=', n, N(3)), ('goto', V('next'))))
            st = ('for', x1, [sub(ELEMS[e1], x1)], ('cmp', [cnt, lim, inner, txt('e'), ('lab', 'next', txt('n'))]))
        elif k == 4:
            st = ('for', x1, [sub(ELEMS[e1], x1)], ('blk', [('var', INT, ['w']), ('arr', INT, ['u'], [(N(1), N(2))])], [cnt, lim, (':=', [V('w')], N(3)), ('for', V('w'), [('e', N(1)), ('e', N(2))], inner), txt(';')]))
        else:
            st = ('for', x1, [sub(ELEMS[e1], x1)], ('if', op('>', x1, N(1)), inner, ('cmp', [cnt, lim, SP, pr(x1)])))
        return program(place(max(w1, w2), st), [])


class Grid(H.Space):
    """step elements over a full grid of small values"""
    pack = 32
    name = 'step-grid'
    rule = 'all step-until elements with initial value, step and limit from the grid (integers and halves), integer and real controlled variable'

    def descs(self, tier):
        vals = [F(k, 2) for k in (range(-4, 7, 1) if tier == 'quick' else range(-8, 11))]
        for ty in (INT, REAL):
            for a in vals:
                for s in vals:
                    for l in vals:
                        yield (ty, a, s, l)

    def t(self, v):
        s = '%d' % abs(v) if v.denominator == 1 else '%s%d.5' % ('', abs(v).numerator // 2)
        return ('-' if v < 0 else '') + s

    def model(self, d):
        ty, a, s, l = d
        try:
            if ty == INT and a.denominator == 2 and a < 0:
                return None
            x = num.toint(a) if ty == INT else a
            out = ''
            n = 0
            while not (x - l) * num.sign(s) > 0:
                out += ' ' + num.fmt(x)
                n += 1
                if n == 6:
                    return 'ok', out + ' +', 4 + n, 4 + n
                y = x + s
                if ty == INT:
                    if F(y).denominator == 2 and y < 0:
                        return None
                    y = num.toint(F(y))
                x = y
            return 'ok', out, 4 + n, 4 + n
        except num.RefError:
            return None

    def program(self, ds):
        s = '_b_e_g_i_n _i_n_t_e_g_e_r i, n; _r_e_a_l x;\n'
        for k, (ty, a, st, l) in enumerate(ds):
            v = 'i' if ty == INT else 'x'
            s += 'n := 0; _f_o_r %s := %s _s_t_e_p %s _u_n_t_i_l %s _d_o _b_e_g_i_n SPACE(1); print(%s); n := n+1; _i_f n=6 _t_h_e_n _b_e_g_i_n PRINTTEXT(` +\'); _g_o_t_o l%d _e_n_d _e_n_d; l%d: NLCR;\n' % (
                v, self.t(a), self.t(st), self.t(l), v, k, k)
        return s + '_e_n_d\n'

    def describe(self, d):
        return '%s %s step %s until %s' % d


def main(tier):
    return H.check('P06', [Lists(), SelfStep(), OutValue(), Nested(), Grid()], tier,
                   assumptions=['the value of the controlled variable after exhaustion is not judged (undefined in Algol 60)',
                                'step expressions have no side effects (their number of evaluations is not judged)'])
