"""P01: expressions evaluate as Algol 60 defines."""
from fractions import Fraction as F
from itertools import product
from . import harness as H, algol as A, num
from .num import RefError

ARITH = ['+', '-', '×', '/', '÷', '↑']
REL = ['<', '≤', '=', '≥', '>', '≠']
BOOL = ['∧', '∨', '⊃', '≡']

# leaf -> (type, value, source of the operand)
VARS = {'i': 3, 'j': -2, 'k': 5, 'm': 2, 'z': 0, 'x': F(3, 2), 'y': F(-1, 4), 'u': F(2), 'w': F(0),
        'bt': True, 'bf': False}
PRE = ('_i_n_t_e_g_e_r i,j,k,m,z; _r_e_a_l x,y,u,w; _b_o_o_l_e_a_n bt,bf;\n'
       'i := 3; j := -2; k := 5; m := 2; z := 0; x := 1.5; y := -.25; u := 2.0; w := 0.0; bt := _t_r_u_e; bf := _f_a_l_s_e;\n')


def V(n):
    return ('v', n)


class E(dict):
    pass


ENV = A.Env(None)
for n_, v_ in VARS.items():
    c_ = A.Cell('boolean' if isinstance(v_, bool) else 'integer' if isinstance(v_, int) else 'real')
    c_.v = v_
    ENV.b[n_] = c_


def typ(v):
    return 'b' if isinstance(v, bool) else 'i' if isinstance(v, int) else 'r'


class ExprSpace(H.Space):
    """Every descriptor denotes one expression; a program prints the values of many."""
    pack = 24
    pre = PRE

    def tree(self, desc):
        raise NotImplementedError

    def model(self, desc):
        e = self.tree(desc)
        if e is None:
            return None
        it = A.Interp()
        try:
            v = it.ev(e, ENV)
            # the type of the result is observable: ÷ demands integers
            s = ('b:%d' % v) if isinstance(v, bool) else num.fmt(v)
            return 'ok', s, it.steps + 1, it.steps
        except RefError:
            return 'error', '', it.steps + 1, it.steps
        except A.Undef:
            return None

    def show(self, e):
        """statement printing e"""
        it = A.Interp()
        try:
            b = isinstance(it.ev(e, ENV), bool)
        except RefError:
            b = self.isbool(e)
        if b:
            return '_i_f %s _t_h_e_n PRINTTEXT(`b:1\') _e_l_s_e PRINTTEXT(`b:0\'); NLCR' % A.pe(e)
        return 'print(%s); NLCR' % A.pe(e)

    def isbool(self, e):
        if e[0] == 'o':
            return e[1] in REL or e[1] in BOOL
        if e[0] == 'if':
            return self.isbool(e[2])
        if e[0] == 'p':
            return self.isbool(e[1])
        return e[0] == 'b' or (e[0] == 'u' and e[1] == '¬') or (e[0] == 'v' and isinstance(VARS.get(e[1]), bool))

    def program(self, descs):
        return '_b_e_g_i_n ' + self.pre + ';\n'.join(self.show(self.tree(d)) for d in descs) + '\n_e_n_d\n'

    def describe(self, d):
        return A.pe(self.tree(d))


def shapes(n):
    """all binary trees with n operator nodes, leaves numbered left to right"""
    if n == 0:
        return [None]
    r = []
    for k in range(n):
        for a in shapes(k):
            for b in shapes(n - 1 - k):
                r.append((a, b))
    return r


def fill(shape, ops, leaves):
    """in-order: operators and leaves from the lists"""
    ops, leaves = list(ops), list(leaves)

    def go(s):
        if s is None:
            return leaves.pop(0)
        a = go(s[0])
        o = ops.pop(0)
        b = go(s[1])
        return ('o', o, a, b)
    return go(shape)


class ArithTrees(ExprSpace):
    name = 'arith-trees'
    rule = 'all binary trees of n arithmetic operators over leaf patterns mixing integer/real variables and constants; printed with the fewest parentheses the grammar needs'

    def __init__(self, n, pats, sh=None):
        self.n, self.pats = n, pats
        self.name = 'arith-trees-%d' % n
        self.sh = shapes(n)

    def descs(self, tier):
        for p in self.pats:
            for ops in product(ARITH, repeat=self.n):
                for s in range(len(self.sh)):
                    yield (p, ops, s)

    def tree(self, d):
        return fill(self.sh[d[2]], d[1], [LEAF[c] for c in d[0]])


LEAF = {'i': V('i'), 'j': V('j'), 'k': V('k'), 'm': V('m'), 'x': V('x'), 'y': V('y'), 'u': V('u'), 'z': V('z'), 'w': V('w'),
        '2': ('n', 2), '7': ('n', 7), 'h': ('r', '.5'), 'q': ('r', '2.25'), '3': ('n', 3)}


class Unary(ExprSpace):
    name = 'unary-signs'
    rule = 'sign before every operand position of every two-operator expression'

    def descs(self, tier):
        for s1 in ('', '-', '+'):
            for a in 'ix2h':
                for o1 in ARITH:
                    for b in 'kum':
                        for o2 in [None] + ARITH:
                            for s2 in ('', '-') if o2 else ('',):
                                yield (s1, a, o1, b, o2, s2)

    def tree(self, d):
        s1, a, o1, b, o2, s2 = d
        if o2 is None:
            e = ('o', o1, LEAF[a], LEAF[b])
            return signed(s1, e)
        b_ = ('p', ('u', s2, LEAF[b])) if s2 else LEAF[b]
        # textual: s1 a o1 b o2 c -- build respecting precedence
        return textual(s1, [LEAF[a], b_, LEAF['m']], [o1, o2])


def signed(s, e):
    """sign in front of the text of e (which binds like a term)"""
    if not s:
        return e
    # find the leftmost term of an additive chain
    if e[0] == 'o' and e[1] in '+-':
        return ('o', e[1], signed(s, e[2]), e[3])
    return ('u', s, e)


def textual(s, leaves, ops):
    """parse a flat operator sequence with the Algol 60 precedences"""
    def parse(lo, hi):
        # leaves[lo..hi]; split at the last operator of lowest precedence
        if lo == hi:
            return leaves[lo]
        best = None
        for k in range(lo, hi):
            p = A.PREC[ops[k]]
            if best is None or p <= A.PREC[ops[best]]:
                best = k
        return ('o', ops[best], parse(lo, best), parse(best + 1, hi))
    return signed(s, parse(0, len(leaves) - 1))


class FlatSeq(ExprSpace):
    """operand sequences without any parentheses"""

    def __init__(self, n, pats, opsets):
        self.n, self.pats, self.opsets = n, pats, opsets
        self.name = 'flat-%d' % n
        self.rule = 'all parenthesis-free sequences of %d arithmetic operators' % n

    def descs(self, tier):
        for p in self.pats:
            for s in ('', '-'):
                for ops in product(self.opsets, repeat=self.n):
                    yield (p, s, ops)

    def tree(self, d):
        return textual(d[1], [LEAF[c] for c in d[0]], d[2])


class Rel(ExprSpace):
    name = 'relations'
    rule = 'all relations between one-operator arithmetic expressions of all operand types'

    def descs(self, tier):
        terms = [(a,) for a in 'izxw27h'] + [(a, o, b) for o in '+-×/' for a in 'ijx' for b in 'mxy2']
        for r in REL:
            for a in terms:
                for b in terms:
                    yield (a, r, b)

    def tree(self, d):
        return ('o', d[1], self.t(d[0]), self.t(d[2]))

    def t(self, x):
        return LEAF[x[0]] if len(x) == 1 else ('o', x[1], LEAF[x[0]], LEAF[x[2]])


BL = [V('bt'), V('bf')]


class BoolTrees(ExprSpace):
    rule = 'all trees of boolean operators, each operand optionally negated, all truth values; operands are variables, constants, relations'

    def __init__(self, n, sh=None):
        self.n = n
        self.name = 'bool-trees-%d' % n
        self.sh = shapes(n)

    def descs(self, tier):
        for s in range(len(self.sh)):
            for ops in product(BOOL, repeat=self.n):
                for vals in product((0, 1), repeat=self.n + 1):
                    for neg in product((0, 1), repeat=self.n + 1) if self.n < 3 else [(0,) * (self.n + 1), (1,) + (0,) * self.n, (0,) * self.n + (1,), (0, 1) * 2]:
                        yield (s, ops, vals, neg)

    def tree(self, d):
        s, ops, vals, neg = d
        leaves = []
        for k, (v, n) in enumerate(zip(vals, neg)):
            src = (sum(vals) + k + n) % 3
            if src == 0:
                e = BL[1 - v]
            elif src == 1:
                e = ('b', bool(v))
            else:
                e = ('o', '<' if v else '>', V('j'), V('i'))
            leaves.append(('u', '¬', e) if n else e)
        t = fill(self.sh[s], ops, leaves)
        return ('u', '¬', t) if sum(neg) == 1 and neg[0] and self.n < 3 and vals[0] else t


class BoolFlat(ExprSpace):
    name = 'bool-flat'
    rule = 'all parenthesis-free sequences mixing ¬, relations and boolean operators'

    def descs(self, tier):
        n = 3 if tier == 'quick' else 4
        for ops in product(BOOL, repeat=n):
            for vals in product((0, 1), repeat=n + 1):
                yield (ops, vals)

    def tree(self, d):
        ops, vals = d
        lv = []
        for k, v in enumerate(vals):
            m = (k + sum(vals)) % 4
            if m == 0:
                lv.append(BL[1 - v])
            elif m == 1:
                lv.append(('u', '¬', BL[v]))
            elif m == 2:
                lv.append(('o', '≤' if v else '≥', ('o', '-', V('j'), V('x')), V('z')))
            else:
                lv.append(('u', '¬', ('o', '=' if not v else '≠', V('i'), V('k'))))
        return textual('', lv, ops)


class Cond(ExprSpace):
    name = 'conditional'
    rule = 'all nestings of conditional expressions to depth 2 (condition, then-part, else-part), alone and as left/right operand and function argument'

    def descs(self, tier):
        for c1, c2, c3 in product((0, 1, 2, 3), (0, 1), (0, 1)):
            for where in range(6):
                for ty in range(3):
                    for ctx in range(8):
                        yield (c1, c2, c3, where, ty, ctx)

    def tree(self, d):
        c1, c2, c3, where, ty, ctx = d
        conds = [V('bt'), V('bf'), ('o', '<', V('i'), V('k')), ('o', '>', V('x'), V('u'))]
        A1, B1, C1, D1 = [(('n', 2), V('i'), V('k'), V('m')), (V('x'), ('r', '2.25'), V('y'), V('u')),
                          (V('i'), V('x'), ('n', 7), ('r', '.5'))][ty]
        inner = ('if', conds[c2], A1, B1)
        inner2 = ('if', conds[c3], C1, D1)
        c = conds[c1]
        if where == 0:
            e = ('if', c, inner, C1)        # needs parentheses in the then part
            e = ('if', c, ('p', inner), C1)
        elif where == 1:
            e = ('if', c, C1, inner)
        elif where == 2:
            e = ('if', c, ('p', inner), inner2)
        elif where == 3:
            e = ('if', ('p', ('if', c, conds[c2], conds[1 - c2])), A1, inner2)
        elif where == 4:
            e = ('if', ('o', '∧', c, conds[c3]), ('o', '+', A1, B1), ('o', '×', C1, D1))
        else:
            e = ('if', ('u', '¬', c), ('o', '-', A1, B1), ('if', conds[c3], ('o', '-', C1, D1), ('u', '-', A1)))
        return [e, ('o', '+', ('p', e), V('i')), ('o', '-', V('x'), ('p', e)), ('o', '×', ('p', e), ('p', inner2)),
                ('c', 'abs', [e]), ('c', 'sign', [('o', '-', ('p', e), V('k'))]),
                ('if', ('o', '<', ('p', e), V('m')), V('i'), e), ('u', '-', ('p', e))][ctx]


class BoolCond(ExprSpace):
    name = 'boolean-conditional'
    rule = 'conditional boolean expressions in every operand position of every boolean operator'

    def descs(self, tier):
        for vals in product((0, 1), repeat=4):
            for op in BOOL:
                for pos in range(5):
                    yield (vals, op, pos)

    def tree(self, d):
        (a, b, c, e), op, pos = d
        A_, B_, C_, E_ = (BL[1 - a], ('o', '<' if b else '>', V('j'), V('x')), ('b', bool(c)), BL[1 - e])
        ife = ('if', A_, B_, C_)
        if pos == 0:
            return ('o', op, ('p', ife), E_)
        if pos == 1:
            return ('o', op, E_, ('p', ife))
        if pos == 2:
            return ('if', ('p', ife), ('o', op, B_, E_), ('u', '¬', E_))
        if pos == 3:
            return ('if', ('o', op, A_, E_), ('u', '¬', B_), ife)
        return ('u', '¬', ('p', ife))


class Funs(ExprSpace):
    name = 'standard-functions'
    rule = 'standard functions applied to every one-operator argument, nested two deep, as operands of every operator'

    def descs(self, tier):
        args = [(a, o, b) for o in '+-×/' for a in 'ix' for b in 'kmy'] + [(a,) for a in 'ijxyuzw27hq']
        for f in ('abs', 'sign', 'entier', 'sqrt', 'exp', 'arctan', 'sin', 'cos', 'ln'):
            for a in args:
                for ctx in range(4):
                    yield (f, a, ctx)

    def tree(self, d):
        f, a, ctx = d
        arg = LEAF[a[0]] if len(a) == 1 else ('o', a[1], LEAF[a[0]], LEAF[a[2]])
        e = ('c', f, [arg])
        return [e, ('o', '-', V('k'), e), ('o', '×', e, ('c', 'abs', [arg])), ('c', 'sign', [('o', '-', e, ('n', 1))])][ctx]


class TypeObs(ExprSpace):
    name = 'result-types'
    rule = 'the result of every operator on every operand-type pair used as operand of ÷ (which demands integers)'

    def descs(self, tier):
        lv = 'ijx u2h'.replace(' ', '')
        for o in ARITH:
            for a in lv:
                for b in lv:
                    for side in (0, 1):
                        yield (o, a, b, side)

    def tree(self, d):
        o, a, b, side = d
        e = ('p', ('o', o, LEAF[a], LEAF[b]))
        return ('o', '÷', ('n', 7), e) if side else ('o', '÷', e, V('m'))


class LongChain(ExprSpace):
    name = 'long-chains'
    rule = 'chains and nests of n equal operands for every operator pair, n up to the bound (stack depth)'
    pack = 6

    def descs(self, tier):
        for n in range(2, 13 if tier == 'quick' else 25):
            for o1 in '+-×':
                for o2 in '+-':
                    for shape in (0, 1):
                        for leaf in 'ix2':
                            yield (n, o1, o2, shape, leaf)

    def tree(self, d):
        n, o1, o2, shape, leaf = d
        e = LEAF[leaf]
        for k in range(n):
            l = LEAF['m' if k % 2 else 'k']
            o = o1 if k % 2 else o2
            e = ('o', o, e, l) if shape == 0 else ('o', o, l, e)
        return e


class Zeros(ExprSpace):
    name = 'zeros'
    rule = 'zero has two representations on the X1: all relations between all pairs of zero-valued (and some other) expressions of both types and signs (variables that hold the zero, products, quotients, differences, negations), between sums, differences and products of two of them and zero, and between standard functions of them and zero'
    pre = PRE + 'nz := -z; nw := -w; za := z × j; wa := w × j; wz := nz; zw := nw;\n'
    pre = pre.replace('j,k,m,z;', 'j,k,m,z,nz,za,zw;').replace('y,u,w;', 'y,u,w,nw,wa,wz;')
    P = [V('z'), V('nz'), V('za'), V('zw'), V('w'), V('nw'), V('wa'), V('wz'), ('n', 0), ('r', '.0'),
         ('u', '-', V('z')), ('u', '-', V('nz')), ('u', '-', V('w')), ('u', '-', V('nw')), ('u', '-', ('n', 0)), ('u', '-', ('r', '.0')),
         ('o', '×', V('z'), V('j')), ('o', '×', V('w'), V('j')), ('o', '/', V('z'), V('j')), ('o', '÷', V('z'), V('j')), ('o', '÷', V('nz'), V('m')),
         ('o', '-', V('i'), V('i')), ('u', '-', ('p', ('o', '-', V('i'), V('i')))), ('o', '-', V('x'), V('x')), ('u', '-', ('p', ('o', '-', V('x'), V('x')))),
         ('o', '+', V('j'), V('m')), V('m'), V('j'), V('y')]

    def descs(self, tier):
        n = len(self.P)
        for r in REL:
            for a in range(n):
                for b in range(n):
                    yield ('r', a, r, b)
            for a in range(n - 3):
                for f in ('sign', 'abs', 'entier'):
                    yield (f, a, r, 0)
                for o in '+-×':
                    for b in range(n - 3):
                        if tier != 'quick' or a < 16 or b < 10:
                            yield (o, a, r, b)

    def tree(self, d):
        k, a, r, b = d
        if k == 'r':
            return ('o', r, self.P[a], self.P[b])
        z = ('n', 0)
        if len(k) > 1:
            return ('o', r, ('c', k, [self.P[a]]), z)
        return ('o', r, ('o', k, ('p', self.P[a]), ('p', self.P[b])), z)


for n_, t_ in (('nz', 'integer'), ('za', 'integer'), ('zw', 'integer'), ('nw', 'real'), ('wa', 'real'), ('wz', 'real')):
    ENV.b[n_] = A.Cell(t_)
    ENV.b[n_].v = 0 if t_ == 'integer' else F(0)


def main(tier):
    q = tier == 'quick'
    p2 = ['ik2', 'xum', 'ixk', 'xi7', 'iu2', '2jx', 'hkm', 'zwx', 'jqi']
    p3 = ['ik2m', 'xium', 'k2xq', 'imxj'] if q else ['ik2m', 'xium', 'k2xq', 'imxj', 'xxuu', 'jhi7', '7m3k', 'uiyk']
    p1 = [a + b for a in 'ijkxyuzw27hq' for b in 'ijmxuzw27h']
    spaces = [ArithTrees(1, p1), ArithTrees(2, p2), ArithTrees(3, p3), FlatSeq(4, ['ikxm2'] if q else ['ikxm2', 'xiuk7', '7jm2i'], '+-×/÷' if q else '+-×/÷↑'),
              Unary(), Rel(), BoolTrees(1), BoolTrees(2), BoolTrees(3), BoolFlat(), Cond(), BoolCond(), Funs(), TypeObs(), LongChain(), Zeros()]
    return H.check('P01', spaces, tier,
                   assumptions=['operand values are taken from small sets that separate all operators, associations and types',
                                'the order of evaluation of operands is not observed (no side effects in this space)'])
