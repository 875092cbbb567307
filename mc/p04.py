"""P04: machine number formats round-trip exactly."""
import os, re
from fractions import Fraction as F
from . import harness as H, algol as A, num

IM = (1 << 26) - 1


class Driver(H.Space):
    """drv_numfmt.cpp, linked with the conversion routines of the simulator,
    enumerates the patterns; each descriptor is one shard."""
    pack = 1
    name = 'conversion-routines'
    rule = ('all 2^27 integer words (both directions, negate, abs); all 4096 exponents x both signs x boundary mantissas '
            '(single bits, runs, complements; pairs of bits in the thorough tier) of reals; unnormalized patterns; host numbers with '
            'every class of excess bits at all boundary exponents; real-to-integer rounding of every integer and sixteenth fraction in range')

    def descs(self, tier):
        if not os.path.exists(os.path.join(self.build, 'numfmt')):
            return
        t = 0 if tier == 'quick' else 1
        for k in range(32):
            yield ('ints', k << 22, (k + 1) << 22)
        yield ('intover',)
        for k in range(32):
            yield ('reals', -2048 + k * 128, -2048 + (k + 1) * 128, t)
        yield ('unnorm',)
        for k in range(16):
            yield ('rounding', k, 16, t)
        if t == 0:
            for a in (-IM - 3, -(1 << 25) - 2000, -40000, 0, (1 << 25) - 20000, IM - 40000):
                yield ('toint', a, a + 40004)
        else:
            for k in range(64):
                a = -IM - 3 + k * (1 << 21)
                yield ('toint', a, min(a + (1 << 21), IM + 4))
            yield ('toint', IM - 5, IM + 4)
        yield ('tointbig',)

    def case(self, d):
        c = H.Case('driver ' + ' '.join(map(str, d)), [H.Req([os.path.join(self.build, 'numfmt')] + [str(x) for x in d], cpu=200)], self.judge,
                   'numfmt ' + ' '.join(map(str, d)))
        c.info = lambda obs: [int(x) for x in re.findall(rb'states=(\d+) checks=(\d+)', obs[0].out)[0]]
        return c

    def judge(self, obs):
        o = obs[0]
        if o.status != 0 or not o.out.startswith(b'OK'):
            return 'a conversion differs from the reference', {'stdout': 'OK ...'}


class EndToEnd(H.Space):
    """The same formats through the Algol system: numbers are built by exact
    operations, stored, loaded, negated and printed."""
    pack = 32
    name = 'through-programs'
    rule = 'm×2^k for all boundary exponents k and mantissas 1, 1+2^-j, 2-2^-j (all j), both signs; printed to 13 digits, which identify the pattern'

    def descs(self, tier):
        ks = sorted(set(list(range(-2048, 2047, 97 if tier == 'quick' else 13)) + list(range(-45, 46)) + [-2048, -2047, 2044, 2045]))
        for k in ks:
            for j in range(0, 40, 1 if tier != 'quick' else 3):
                for form in (0, 1):
                    for neg in (0, 1):
                        yield (k, j, form, neg)

    def model(self, d):
        k, j, form, neg = d
        m = F(1) + F(1, 1 << j) if form == 0 else F(2) - F(1, 1 << j)
        if m == 2 and k >= 2046:
            return None
        v = m * F(2) ** k
        if neg:
            v = -v
        return 'ok', num.fmt(v), 4, 3

    def program(self, ds):
        s = '_b_e_g_i_n _r_e_a_l x,y,h; _a_r_r_a_y a[1:2];\n'
        for k, j, form, neg in ds:
            # 2^k and 2^-j are exact; the product of two exact powers is exact
            s += 'h := %s; ' % ('2.0↑%d' % k if k >= 0 else '.5↑%d' % -k if k > -2047 else '.5↑2040×.5↑%d' % (-k - 2040))
            s += 'x := .5↑%d; y := %s; a[2] := y × h; x := %sa[2]; print(x); NLCR;\n' % (j, ['1+x', '2-x'][form], '-' if neg else '')
        return s + '_e_n_d\n'

    def describe(self, d):
        return '%d,%d,%d,%d' % d


class IntEnd(H.Space):
    pack = 64
    name = 'integers-through-programs'
    rule = 'all ±2^k±d integers (d ≤ 3), stored, negated twice, printed'

    def descs(self, tier):
        vs = set()
        for k in range(0, 27):
            for d in range(-3, 4):
                if abs((1 << k) + d) <= IM:
                    vs.add((1 << k) + d)
        for v in sorted(vs):
            for f in range(4):
                yield (v, f)

    def model(self, d):
        v, f = d
        return 'ok', str([v, -v, v, abs(v)][f]), 3, 2

    def program(self, ds):
        s = '_b_e_g_i_n _i_n_t_e_g_e_r i,j; _i_n_t_e_g_e_r _a_r_r_a_y a[0:1]; _r_e_a_l x;\n'
        for v, f in ds:
            t = str(v) if v >= 0 else '-%d' % -v
            s += ['i := %s; a[1] := i; print(a[1])', 'i := %s; j := -i; a[0] := j; print(a[0])', 'x := %s; x := -x; i := -x; print(i)',
                  'i := %s; x := abs(i); i := x; print(i)'][f] % t + '; NLCR;\n'
        return s + '_e_n_d\n'

    def describe(self, d):
        return '%d,%d' % d


def main(tier):
    return H.check('P04', [Driver(), EndToEnd(), IntEnd()], tier,
                   assumptions=['host long double is the x87 80-bit format', 'exact ties may be rounded either way'])
