"""P05: numeric constants denote the number written."""
from fractions import Fraction as F
from itertools import product
import re
from . import harness as H, algol as A, num

NUM = re.compile(r'^(\d+(\.\d+)?|\.\d+)?(⏨[+-]?\d+)?$')
IMAX = num.IMAX


def valid(t):
    return bool(t) and NUM.match(t) is not None


def isint(t):
    return t.isdigit() and int(t) <= IMAX


def ulp(v):
    """one unit of the 40-bit mantissa"""
    n, d = v.numerator, v.denominator
    e = n.bit_length() - d.bit_length()
    if F(2) ** e <= v:
        e += 1
    return F(2) ** (e - 40)


def parse(g):
    if not re.match(r'^-?\d+(\.\d+)?(e[+-]\d+)?$', g):
        return None
    return A.lit(g.lstrip('-').replace('e+', '⏨').replace('e', '⏨')) * (-1 if g[0] == '-' else 1)


class Consts(H.Space):
    pack = 40

    def model(self, t):
        v = A.lit(t)
        if isint(t):
            return 'ok', 'i %d' % v, len(t) + 1, len(t)
        if v == 0:
            return 'ok', 'r 0', len(t) + 1, len(t)
        e = ulp(v) * (1 << 40)   # 2^(exponent), v in [e/2, e)
        x = e.numerator.bit_length() - e.denominator.bit_length()
        if x > 2047 or x < -2047:
            return self.edge(t, x)
        return 'ok', 'r ' + t, len(t) + 1, len(t)

    def edge(self, t, x):
        return 'reject', '', len(t) + 1, len(t)

    def same(self, t, e, g):
        if g[:2] != 'r ':
            return False
        w, v = parse(g[2:]), A.lit(t)
        if w is None:
            return False
        return abs(v - w) <= ulp(v) + v * F(6, 10 ** 13)

    def program(self, ts):
        s = '_b_e_g_i_n _p_r_o_c_e_d_u_r_e t(x); _v_a_l_u_e x; _r_e_a_l x; print(x); _r_e_a_l y; _i_n_t_e_g_e_r _a_r_r_a_y k[0:1];\n'
        # the type shows in ÷ (integer) and in the result of an exact integer sum
        s = '_b_e_g_i_n _r_e_a_l y;\n'
        for t in ts:
            if isint(t):
                s += 'PRINTTEXT(`i \'); print(%s÷1); NLCR;\n' % t
            else:
                s += 'PRINTTEXT(`r \'); y := %s; print(y); NLCR;\n' % t
        return s + '_e_n_d\n'

    def describe(self, t):
        return t


class Short(Consts):
    name = 'short-constants'
    rule = 'all unsigned numbers of the Algol 60 syntax over the alphabet up to the length bound'

    def descs(self, tier):
        n = 5 if tier == 'quick' else 6
        for k in range(1, n + 1):
            for w in product('0179.⏨-+' if k < 6 else '019.⏨-', repeat=k):
                t = ''.join(w)
                if valid(t):
                    yield t


class Shapes(Consts):
    name = 'long-constants'
    rule = 'digit strings of every length 1..40 from several patterns, a point at every position, leading and trailing zeros; boundary integers'

    def descs(self, tier):
        pats = ['9' * 40, '1' + '0' * 39, '1234567890' * 4, '67108863' * 5, '5' * 40, '0' * 30 + '1234567890', '10000000000000000000000000000000000000001']
        for p in pats:
            for n in range(1, 41):
                t = p[:n]
                yield t
                for k in range(0, n, 1 if tier != 'quick' or n < 20 else 3):
                    yield t[:k] + '.' + t[k:]
        for k in range(0, 33):
            for d in range(-3, 4):
                v = (1 << k) + d
                if v >= 0:
                    for t in (str(v), str(v) + '.0', str(v) + '⏨0', '000' + str(v), str(v) + '.00000', str(v) + '0⏨-1'):
                        yield t
        for z in range(0, 30):
            yield '0.' + '0' * z + '1'
            yield '.' + '0' * z + '987654321'
            yield '1' + '0' * z + '.5'


class Exponents(Consts):
    name = 'exponents'
    rule = 'every exponent -630..630 with several mantissas'

    def descs(self, tier):
        ms = ['', '1', '9.99', '123456789', '.001'] if tier == 'quick' else ['', '1', '9.99', '123456789', '.001', '2.5', '67108863', '0.00000123', '7', '999999999999']
        for x in range(-630, 631):
            for m in ms:
                yield '%s⏨%d' % (m, x)
        for x in range(-40, 41):
            yield '1⏨%+d' % x
            yield '0⏨%d' % x
            yield '.0⏨%+d' % x

    def edge(self, t, x):
        return ('edge' if abs(x) == 2048 else 'reject'), '', 1, 1


class RangeSpace(Exponents):
    """Constants out of range: diagnostic; at the very edge either."""
    pack = 1
    name = 'out-of-range'
    rule = 'every exponent 580..99999-like beyond the range: a compile-time diagnostic, never a value'

    def descs(self, tier):
        for x in list(range(585, 660)) + [700, 999, 1000, 1233, 1234, 2048, 4096, 5000, 9999, 32767, 65536, 100000]:
            for m in ('', '3', '99999', '.0001', '1234567890123'):
                for s in ('', '-'):
                    yield '%s⏨%s%d' % (m, s, x)

    def case(self, t):
        v = A.lit(t)
        e = ulp(v) * (1 << 40)
        x = e.numerator.bit_length() - e.denominator.bit_length()
        src = '_b_e_g_i_n _r_e_a_l y; y := %s; print(y) _e_n_d\n' % t

        def judge(obs):
            o = obs[0]
            good = False
            if o.status == 0:
                w = parse(o.out.decode())
                good = w is not None and abs(v - w) <= ulp(v) + v * F(6, 10 ** 13)
            rej = o.status == 1 and b'Error' in o.err and o.out == b''
            if -2046 <= x <= 2046:
                ok = good
            elif abs(x) <= 2049:
                ok = good or rej
            else:
                ok = rej
            if not ok:
                return 'constant out of range must be rejected, in range must be right', {'value': 'constant %s, binary exponent %d' % (t, x)}
        return H.Case('range ' + t, [H.prog_req(src)], judge, src, len(t), len(t))


class Exp2(Exponents):
    def descs(self, tier):
        for t in Exponents.descs(self, tier):
            v = A.lit(t)
            if v == 0:
                yield t
                continue
            e = ulp(v) * (1 << 40)
            x = e.numerator.bit_length() - e.denominator.bit_length()
            if -2046 <= x <= 2046:
                yield t


class Types(H.Space):
    pack = 32
    name = 'constant-types'
    rule = 'only unsigned integers in range are of integer type: every short constant as operand of ÷ must be accepted or rejected accordingly; products of two constants stay integer or real'

    def descs(self, tier):
        for k in range(1, 5):
            for w in product('017.⏨', repeat=k):
                t = ''.join(w)
                if valid(t):
                    yield t
        for t in ('67108863', '67108864', '0067108863', '67108862', '134217727', '99999999', '100000000'):
            yield t

    def model(self, t):
        v = A.lit(t)
        if v == 0 and not t.isdigit():
            return None         # zero, however written, may be an integer zero
        if t.isdigit():
            return ('ok', '%d' % (v // 2), 2, 1) if v <= IMAX else ('error', '', 2, 1)
        if ulp(v if v else F(1)) > F(2) ** 2000:
            return None
        return 'error', '', 2, 1

    def program(self, ts):
        return '_b_e_g_i_n ' + ''.join('print(%s÷2); NLCR;\n' % t for t in ts) + '_e_n_d\n'

    def describe(self, t):
        return t


class Many(H.Space):
    pack = 1
    name = 'many-constants'
    rule = 'programs with n distinct constants (integers, reals, both), each used twice at different places, every n up to the bound'

    def descs(self, tier):
        for n in list(range(1, 70)) + ([95, 96, 97, 110, 127, 128, 129, 150] if tier == 'quick' else list(range(70, 200))):
            for kind in range(3):
                yield (n, kind)

    def consts(self, n, kind):
        r = []
        for i in range(n):
            k = (i * 7919 + 12345) % 60000 + 40000       # too big for an instruction's address part
            if kind == 0 or (kind == 2 and i % 2):
                r.append((str(k), k))
            else:
                r.append(('%d.5' % k, F(2 * k + 1, 2)))
        return r

    def case(self, d):
        n, kind = d
        cs = self.consts(n, kind)
        s = '_b_e_g_i_n _r_e_a_l y; _i_n_t_e_g_e_r i; y := 0; i := 0;\n'
        out = ''
        for k, (t, v) in enumerate(cs):
            s += ('y := y + %s;\n' if '.' in t else 'i := i + %s - 30000;\n') % t
        s += 'print(i); NLCR; print(y); NLCR;\n'
        i = sum(v - 30000 for t, v in cs if '.' not in t)
        y = sum((v for t, v in cs if '.' in t), F(0))
        out = '%d\n%s\n' % (i, num.fmt_real(y))
        for t, v in reversed(cs):
            s += 'print(%s); NLCR;\n' % t
            out += num.fmt(v) + '\n'
        s += '_e_n_d\n'

        ok = H.expect_run('ok', out)

        def judge(obs):
            o = obs[0]
            if n > 100 and o.status == 1 and b'Fatal error in Algol compiler' in o.err and o.out == b'':
                return None     # too large a program may be rejected
            return ok(obs)
        return H.Case('many %d %d' % d, [H.prog_req(s)], judge, s, 2 * n, 2 * n)


def main(tier):
    return H.check('P05', [Short(), Shapes(), Exp2(), RangeSpace(), Types(), Many()], tier,
                   assumptions=['alphabet of digits 0,1,7,9 in the exhaustive part', 'constants within one binary order of the range limits may be accepted or rejected'])
