"""P03: numbers out of range are never silently wrong."""
from fractions import Fraction as F
import re
from . import harness as H, algol as A, num
from .num import RefError, IMAX


def V(n):
    return ('v', n)


INTS = [0, 1, 2, 3, 7, 10, 26, 27, 181, 8191, 8192, 8193, 32767, 32768, (1 << 25) - 1, 1 << 25, (1 << 25) + 1, IMAX // 3, IMAX - 1, IMAX]
INTS = INTS + [-i for i in INTS[1:]]
REALS = [('.5', F(1, 2)), ('1.5', F(3, 2)), ('2.5', F(5, 2)), ('8191.5', F(16383, 2)), ('67108862.5', IMAX - F(1, 2)), ('67108862.75', IMAX - F(1, 4)),
         ('67108863.0', F(IMAX)), ('67108863.25', IMAX + F(1, 4)), ('67108863.5', IMAX + F(1, 2)), ('67108864.0', F(IMAX + 1)),
         ('134217727.0', F(2 * IMAX + 1)), ('134217728.0', F(2 * IMAX + 2)), ('268435456.0', F(1 << 28)), ('2.0↑31', F(1 << 31)), ('2.0↑32', F(1 << 32)), ('(2.0↑32+5)', F((1 << 32) + 5)), ('2.0↑39', F(1 << 39)),
         ('2.0↑63', F(1 << 63)), ('2.0↑64', F(1 << 64)), ('2.0↑100', F(1 << 100)), ('2.0↑1000', F(1 << 1000)), ('2.0↑2045', F(1 << 2045)),
         ('2.0↑2046', F(1 << 2046)), ('2.0↑2046×1.5', F(3 << 2045)), ('2.0↑2046×(2-.5↑39)', F((1 << 2047) - (1 << 2007))),
         ('.5↑41', F(1, 1 << 41)), ('.5↑1000', F(1, 1 << 1000)), ('.5↑2047', F(1, 1 << 2047)), ('.5↑2048', F(1, 1 << 2048)), ('.5↑2048×.5', F(1, 1 << 2049))]
NEGR = [0, 2, 4, 6, 8, 9, 13, 19, 24, 27, 29]
VALS = [('i%d' % k, v, str(v)) for k, v in enumerate(INTS)]
VALS += [('r%d' % k, v, t) for k, (t, v) in enumerate(REALS)]
VALS += [('n%d' % k, -REALS[k][1], '-' + REALS[k][0]) for k in NEGR]
VALS += [('zz', F(0), '0.0')]
TAB = {n: v for n, v, _ in VALS}
TXT = {n: t for n, _, t in VALS}
OPS = ['+', '-', '×', '/', '÷', '↑']


def pre(names):
    iv = sorted(n for n in names if n[0] == 'i')
    rv = sorted(n for n in names if n[0] != 'i')
    s = ''
    if iv:
        s += '_i_n_t_e_g_e_r ' + ','.join(iv) + ';\n'
    if rv:
        s += '_r_e_a_l ' + ','.join(rv) + ';\n'
    return s + ''.join('%s := %s;\n' % (n, TXT[n]) for n in iv + rv)


def close(e, g, tol=F(1, 1 << 38)):
    try:
        a, b = A.lit(e.lstrip('-').replace('e+', '⏨').replace('e', '⏨')), A.lit(g.lstrip('-').replace('e+', '⏨').replace('e', '⏨'))
    except Exception:
        return False
    if e.startswith('-') != g.startswith('-') and (a or b):
        return False
    return abs(a - b) <= tol * a


def bigpow(a, b):
    """a ↑ b with an error below the tolerance"""
    if isinstance(b, int) and abs(b) > 400 and a not in (0, 1, -1):
        import mpmath
        if isinstance(a, int) and b > 0:
            raise RefError('overflow')
        with mpmath.workprec(300):
            m = abs(mpmath.mpf(a.numerator) / a.denominator) if isinstance(a, F) else mpmath.mpf(abs(a))
            if m == 1:
                v = F(1)
            else:
                l = mpmath.log(m, 2) * b
                if l > 2048.5:
                    raise RefError('overflow')
                if l < -2050:
                    return F(0)
                if abs(l - 2047) < 1e-6 or abs(l + 2049) < 1e-6:
                    raise num.Undef('on the edge')
                r = mpmath.power(m, b)
                s, man, ex, _ = r._mpf_
                v = F(int(man)) * (F(2) ** ex)
        v = num.rnd(v)
        return -v if a < 0 and b % 2 else v
    if isinstance(b, F) and a > 0 and a != 1:
        import mpmath
        with mpmath.workprec(200):
            l = mpmath.log(mpmath.mpf(F(a).numerator) / F(a).denominator, 2) * b.numerator / b.denominator
            if l > 2048.5:
                raise RefError('overflow')
            if l < -2050:
                return F(0)
            if abs(l - 2047) < 1e-6 or abs(l + 2049) < 1e-6:
                raise num.Undef('on the edge')
    return num.power(a, b)


class Grid(H.Space):
    pack = 16
    name = 'operators'
    rule = 'every arithmetic operator on every ordered pair of boundary operands (integers around 0, 2^13, 2^25, 2^26-1; reals around 2^26, 2^31, 2^32, 2^63, the largest and smallest reals)'

    def descs(self, tier):
        for op in OPS:
            for a in TAB:
                for b in TAB:
                    yield (a, op, b)

    def value(self, d):
        a, op, b = d
        return bigpow(TAB[a], TAB[b]) if op == '↑' else A.OPS[op](TAB[a], TAB[b])

    def model(self, d):
        try:
            return 'ok', num.fmt(self.value(d)), 3, 2
        except RefError:
            return 'error', '', 3, 2
        except (num.Undef, OverflowError):
            return None

    def same(self, d, e, g):
        return d[1] == '↑' and close(e, g)

    def program(self, descs):
        names = {d[0] for d in descs} | {d[2] for d in descs}
        return '_b_e_g_i_n ' + pre(names) + ''.join('print(%s %s %s); NLCR;\n' % d for d in descs) + '_e_n_d\n'

    def describe(self, d):
        return '%s %s %s' % (TXT[d[0]], d[1], TXT[d[2]])


class Chain(Grid):
    name = 'operator-chains'
    rule = 'two additive/multiplicative operators over boundary integers: the intermediate result crosses the range and comes back'
    pack = 16

    def descs(self, tier):
        vs = ['i%d' % INTS.index(v) for v in (1, 2, 8192, 1 << 25, IMAX, -IMAX, -(1 << 25), -1, 0)] + ['r8', 'r1', 'n4']
        for a in vs:
            for o1 in '+-×':
                for b in vs:
                    for o2 in '+-×/÷':
                        for c in vs:
                            yield (a, o1, b, o2, c)

    def value(self, d):
        a, o1, b, o2, c = d
        return A.OPS[o2](A.OPS[o1](TAB[a], TAB[b]), TAB[c])

    same = None

    def program(self, descs):
        names = set()
        for d in descs:
            names |= {d[0], d[2], d[4]}
        return '_b_e_g_i_n ' + pre(names) + ''.join('print((%s %s %s) %s %s); NLCR;\n' % d for d in descs) + '_e_n_d\n'

    def describe(self, d):
        return '(%s %s %s) %s %s' % (TXT[d[0]], d[1], TXT[d[2]], d[3], TXT[d[4]])


class Unary(Grid):
    name = 'functions'
    rule = 'sign, abs, entier, unary minus of every boundary value'
    F = {'-': lambda v: -v, 'abs': lambda v: num.toreal(abs(v)), 'sign': num.sign, 'entier': num.entier}

    def descs(self, tier):
        for f in self.F:
            for a in TAB:
                yield (f, a)

    def value(self, d):
        return self.F[d[0]](TAB[d[1]])

    same = None

    def program(self, descs):
        return '_b_e_g_i_n ' + pre({d[1] for d in descs}) + ''.join('print(%s(%s)); NLCR;\n' % d for d in descs) + '_e_n_d\n'

    def describe(self, d):
        return '%s(%s)' % (d[0], TXT[d[1]])


TARGETS = {
    'static': ('_i_n_t_e_g_e_r t;', 't := {0}; print(t)'),
    'multiple': ('_i_n_t_e_g_e_r t, u;', 't := u := {0}; print(t); print(u)'),
    'local': ('_p_r_o_c_e_d_u_r_e p(x); _v_a_l_u_e x; _r_e_a_l x; _b_e_g_i_n _i_n_t_e_g_e_r t; t := x; print(t) _e_n_d;', 'p({0})'),
    'value-parameter': ('_p_r_o_c_e_d_u_r_e p(x); _v_a_l_u_e x; _i_n_t_e_g_e_r x; print(x);', 'p({0})'),
    'assigned-value-parameter': ('_p_r_o_c_e_d_u_r_e p(x); _v_a_l_u_e x; _i_n_t_e_g_e_r x; _b_e_g_i_n x := {0}; print(x) _e_n_d;', 'p(3)'),
    'name-parameter': ('_i_n_t_e_g_e_r t; _p_r_o_c_e_d_u_r_e p(x); _i_n_t_e_g_e_r x; x := {0};', 'p(t); print(t)'),
    'name-element': ('_i_n_t_e_g_e_r _a_r_r_a_y a[1:3]; _p_r_o_c_e_d_u_r_e p(x); _i_n_t_e_g_e_r x; x := {0};', 'p(a[2]); print(a[2])'),
    'element': ('_i_n_t_e_g_e_r _a_r_r_a_y a[1:3];', 'a[2] := {0}; print(a[2])'),
    'element2': ('_i_n_t_e_g_e_r k; _i_n_t_e_g_e_r _a_r_r_a_y a[0:2,1:2];', 'k := 1; a[k+1,k] := {0}; print(a[2,1])'),
    'formal-element': ('_i_n_t_e_g_e_r _a_r_r_a_y a[1:3]; _p_r_o_c_e_d_u_r_e p(b); _i_n_t_e_g_e_r _a_r_r_a_y b; b[3] := {0};', 'p(a); print(a[3])'),
    'value-array': ('_a_r_r_a_y a[1:2]; _p_r_o_c_e_d_u_r_e p(b); _v_a_l_u_e b; _i_n_t_e_g_e_r _a_r_r_a_y b; print(b[2]);', 'a[1] := 5; a[2] := {0}; p(a)'),
    'function': ('_i_n_t_e_g_e_r _p_r_o_c_e_d_u_r_e f(x); _v_a_l_u_e x; _r_e_a_l x; f := x;', 'print(f({0}))'),
    'for': ('_i_n_t_e_g_e_r t;', '_f_o_r t := {0} _d_o print(t)'),
    'for-step': ('_i_n_t_e_g_e_r t;', '_f_o_r t := {0} _s_t_e_p 5 _u_n_t_i_l {0} _d_o print(t)'),
    'own': ('_o_w_n _i_n_t_e_g_e_r t;', 't := {0}; print(t)'),
    'round': ('', 'print(entier({0}+.5))'),
}


class Assign(H.Space):
    pack = 1
    name = 'real-to-integer'
    rule = 'every boundary value converted through every way a value gets an integer type'

    def descs(self, tier):
        for t in TARGETS:
            for a in TAB:
                yield (t, a)

    def case(self, d):
        t, a = d
        decl, st = TARGETS[t]
        v = TAB[a]
        try:
            if num.istie(v) and v < 0 and t != 'round':
                return None
            if t == 'function' and not (v.denominator == 1 and abs(v) <= IMAX):
                return None     # see FunctionType
            if t == 'round':
                w = num.entier(num.add(num.toreal(v), F(1, 2)))
            else:
                w = num.toint(v)
            r = 'ok', {'multiple': '%d%d' % (w, w)}.get(t, str(w))
            if t == 'for-step':
                if w > v:
                    return None
                if w < v:
                    # t := t + 5 may still be below the limit
                    return None
                num.icheck(w + 5)
        except RefError:
            r = 'error', ''
            if t == 'for-step' and abs(v) <= IMAX:
                r = 'error', str(num.toint(v))
        except num.Undef:
            return None
        ty = '_i_n_t_e_g_e_r' if isinstance(v, int) else '_r_e_a_l'
        src = '_b_e_g_i_n %s q;\n%s\nq := %s; %s\n_e_n_d\n' % (ty, decl.format('q'), TXT[a], st.format('q'))
        return H.Case('assign %s := %s' % (t, TXT[a]), [H.prog_req(src)], H.expect_run(*r), src, 3, 2)


class FunctionType(H.Space):
    pack = 1
    name = 'function-type'
    rule = 'a fractional value assigned to an integer procedure identifier (known finding)'

    def descs(self, tier):
        return iter(['1.5', '0.25', '7.75'])

    def case(self, d):
        src = '_b_e_g_i_n _i_n_t_e_g_e_r _p_r_o_c_e_d_u_r_e f; f := %s; print(f) _e_n_d\n' % d
        return H.Case('function-type ' + d, [H.prog_req(src)], H.expect_run('ok', str(num.toint(A.lit(d)))), src, 2, 2)


class Loops(H.Space):
    pack = 1
    name = 'loops-at-the-limit'
    rule = 'for statements whose controlled variable reaches the ends of the integer range, all start offsets x steps x limits'

    def descs(self, tier):
        for s in (1, -1):
            for off in range(0, 8):
                for step in (1, 2, 3, 7, 8192, IMAX):
                    for lim in (0, 1, 3):
                        yield (s, off, step, lim)

    def case(self, d):
        s, off, step, lim = d
        v, out, st = s * (IMAX - off), '', 'ok'
        limit = s * (IMAX - lim)
        n = 0
        try:
            while not (v - limit) * s > 0:
                out += '%d\n' % v
                v = num.icheck(v + s * step)
                n += 1
        except RefError:
            st = 'error'
        src = '_b_e_g_i_n _i_n_t_e_g_e_r i; _f_o_r i := %d _s_t_e_p %d _u_n_t_i_l %d _d_o _b_e_g_i_n print(i); NLCR _e_n_d _e_n_d\n' % (
            s * (IMAX - off), s * step, limit)
        return H.Case('loop %d %d %d %d' % d, [H.prog_req(src)], H.expect_run(st, out), src, n + 1, n + 1)


class Undefined(H.Space):
    pack = 1
    name = 'undefined-operations'
    rule = 'division by zero and powers without a value, for every operand class; the program must stop with an error after the output so far'

    def descs(self, tier):
        zs = ['0', '0.0', 'iz', 'rz', '(i3-3)', '(r1-1.0)', 'a[1]', 'f']
        for z in zs:
            for n in ('1', 'i3', 'r1', '-2', '0', '0.0', 'a[2]', '5.5'):
                for op in '/÷':
                    yield (n, op, z)
        for z in zs:
            for e in ('0', 'iz', '-1', '-i3', '0.0', '-1.5', 'rz', '-r1'):
                yield (z, '↑', '(' + e + ')')
        for b in ('-1.5', '-1', '-i3', '-r1'):
            for e in ('.5', 'r5', '2.5', '-.5'):
                yield ('(' + b + ')', '↑', '(' + e + ')')
        for f in ('sqrt', 'ln'):
            for a in ('-1', '-.5', '-r1', '-i3') + (('0', '0.0', 'iz') if f == 'ln' else ()):
                yield (f, '(', a)

    def case(self, d):
        e = '%s(%s)' % (d[0], d[2]) if d[1] == '(' else '%s %s %s' % d
        src = ('_b_e_g_i_n _i_n_t_e_g_e_r iz,i3; _r_e_a_l rz,r1,r5,q; _a_r_r_a_y a[1:2]; _r_e_a_l _p_r_o_c_e_d_u_r_e f; f := 0;\n'
               'iz := 0; i3 := 3; rz := 0; r1 := 1.0; r5 := .5; a[1] := 0; a[2] := 4;\n'
               'PRINTTEXT(`before\'); q := %s; PRINTTEXT(`after\') _e_n_d\n' % e)
        return H.Case('undefined ' + e, [H.prog_req(src)], H.expect_run('error', 'before'), src, 2, 2)


class Subscript(H.Space):
    pack = 1
    name = 'subscripts'
    rule = 'every boundary value as subscript of a one-dimensional array, in fetch, store and through a name parameter'

    def descs(self, tier):
        for a in TAB:
            for how in range(4):
                for lohi in ((1, 3), (-3, -1), (0, 0), (8190, 8193)):
                    yield (a, how, lohi)

    def case(self, d):
        a, how, (lo, hi) = d
        v = TAB[a]
        if num.istie(v) and v < 0:
            return None
        try:
            k = num.toint(v)
            ok = lo <= k <= hi
            if not ok and (k - lo) % (1 << 26) <= hi - lo:
                return None     # element addresses are computed modulo 2^26: see P10
        except RefError:
            ok = False
        ty = '_i_n_t_e_g_e_r' if isinstance(v, int) else '_r_e_a_l'
        use = ['print(a[q])', 'a[q] := 99; print(99)', 'p(a[q])', 'w(a[q]); print(7)'][how]
        src = ('_b_e_g_i_n %s q; _i_n_t_e_g_e_r i; _i_n_t_e_g_e_r _a_r_r_a_y a[%d:%d]; _p_r_o_c_e_d_u_r_e p(x); print(x); _p_r_o_c_e_d_u_r_e w(x); x := 5;\n'
               '_f_o_r i := %d _s_t_e_p 1 _u_n_t_i_l %d _d_o a[i] := i; q := %s; %s _e_n_d\n' % (ty, lo, hi, lo, hi, TXT[a], use))
        out = [str(k), '99', str(k), '7'][how] if ok else ''
        return H.Case('subscript %s %d [%d:%d]' % (TXT[a], how, lo, hi), [H.prog_req(src)], H.expect_run('ok' if ok else 'error', out), src, 3, 2)


def main(tier):
    return H.check('P03', [Grid(), Chain(), Unary(), Assign(), FunctionType(), Loops(), Undefined(), Subscript()], tier,
                   assumptions=['powers with large exponents are compared to 2^-38 relative', 'sums that lie within 2^-20 unit of a rounding tie are not judged'])
