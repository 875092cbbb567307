"""P11: printed numbers are correctly rounded and laid out as documented."""
from fractions import Fraction as F
from itertools import product
from . import harness as H, algol as A, num

TOL = F(1, 1 << 60)      # digits beyond the 18th may differ (64-bit arithmetic of the simulator)


def cands(q, eps):
    """acceptable roundings of q to an integer: exact ties either way, and
    anything within eps of a tie"""
    a, b = q - eps + F(1, 2), q + eps + F(1, 2)
    lo = a.numerator // a.denominator - (a.denominator == 1)
    return set(range(max(lo, 0), b.numerator // b.denominator + 1))


def lead(s, keep):
    """leading zeros replaced by spaces, except the last keep digits"""
    k = 0
    while k < len(s) - keep and s[k] == '0':
        k += 1
    return ' ' * k + s[k:]


def pow10(e):
    return F(10) ** e


def exp10(x):
    """E with .1 <= x/10^E < 1"""
    e = int((x.numerator.bit_length() - x.denominator.bit_length()) * 0.30103)
    while pow10(e) <= x:
        e += 1
    while pow10(e - 1) > x:
        e -= 1
    return e


def flot(n, m, x):
    if not (1 <= n <= 13 and 1 <= m <= 3):
        n, m = 13, 3
    sg = ['+', '-'] if x == 0 else ['-'] if x < 0 else ['+']
    x = abs(x)
    if x == 0:
        return {'%s.%s⏨+%s ' % (s, '0' * n, lead('0' * m, 1)) for s in sg}
    E = exp10(x)
    out = set()
    for c in cands(x * pow10(n - E), pow10(n) * TOL):
        e = E
        if c >= 10 ** n:
            c, e = c // 10, e + 1
        if c < 10 ** (n - 1):       # a tolerated rounding just below the power of ten
            c, e = 10 ** n - 1, e - 1
        if abs(e) >= 10 ** m or abs(E) >= 10 ** m:
            out |= flot(13, 3, x if sg[0] == '+' else -x)
        if abs(e) < 10 ** m:
            out |= {'%s.%0*d⏨%s%s ' % (s, n, c, '-' if e < 0 else '+', lead('%0*d' % (m, abs(e)), 1)) for s in sg}
    return out


def fixt(n, m, x, sign):
    if n < 0 or m < 0 or n + m > 21 or n + m < 1:
        return flot(13, 3, x)
    sg = [' '] if not sign else ['+', '-'] if x == 0 else ['-'] if x < 0 else ['+']
    y = abs(x)
    if y > pow10(n) * 2:
        return flot(13, 3, x)
    out = set()
    for c in cands(y * pow10(m), max(y * pow10(m), 1) * TOL):
        if c >= 10 ** (n + m):
            out |= flot(13, 3, x)
            continue
        d = '%0*d' % (n + m, c)
        i, f = d[:n], d[n:]
        body = lead(i, 1 if m == 0 else 0) + ('.' + f if m else '')
        out |= {s + body + ' ' for s in sg}
    return out


def general(x, digits=13):
    """printf %.13Lg"""
    if x == 0:
        return {'0', '-0'}
    s = '-' if x < 0 else ''
    x = abs(x)
    E = exp10(x)
    out = set()
    for c in cands(x * pow10(digits - E), 0):
        e = E
        if c >= 10 ** digits:
            c, e = c // 10, e + 1
        p = e - 1
        d = str(c)
        if p < -4 or p >= digits:
            t = d[0] + '.' + d[1:]
            t = t.rstrip('0').rstrip('.')
            t += 'e%s%02d' % ('-' if p < 0 else '+', abs(p))
        elif p >= 0:
            t = (d[:p + 1] + '.' + d[p + 1:]).rstrip('0').rstrip('.')
        else:
            t = ('0.' + '0' * (-p - 1) + d).rstrip('0')
        out.add(s + t)
    return out


def near(v):
    """machine reals around v (mantissa, exponent)"""
    e = 0
    n, d = v.numerator, v.denominator
    e = n.bit_length() - d.bit_length() - 40
    while v / F(2) ** e >= 1 << 40:
        e += 1
    while v / F(2) ** e < 1 << 39:
        e -= 1
    q = v / F(2) ** e
    f = q.numerator // q.denominator
    r = []
    for m in (f - 1, f, f + 1, f + 2):
        r.append((m, e) if m < 1 << 40 else (m >> 1, e + 1))
    return r


def norm(m, e):
    while m and m % 2 == 0:
        m //= 2
        e += 1
    return m, e


def values(tier):
    """(mantissa, exponent) pairs"""
    v = []
    for k in range(0, 13):
        for j in (-1, 0, 1):
            v.append((10 ** k + j, 0))
    for k in range(0, 12):
        v.append((10 ** (k + 1) - 10 ** k // 2, 0))
    v += [((1 << 40) - 1, 0), ((1 << 40) - 1, -40), ((1 << 40) - 1, -20), (1 << 26, 0), ((1 << 26) - 1, 0), ((1 << 40) - 1, 30), ((1 << 40) - 1, 27)]
    # exact ties: k/2^j
    for j in range(1, 12 if tier == 'quick' else 30):
        for k in (1, 3, 5, 7, 9, 2 ** j - 1, 2 ** j + 1, 9 * 2 ** j + 2 ** (j - 1), 99 * 2 ** j + 2 ** j - 1):
            v.append((k, -j))
    # around decimal ties and powers of ten, nearest machine numbers
    r = 14 if tier == 'quick' else 22
    for p in range(-r, r):
        for d in (F(1), F(15, 10), F(95, 100), F(995, 1000), F(9, 10), F(5, 1000), F(104999, 100000)):
            v += near(d * pow10(p))
    for d in (F(1, 3), F(2, 3), F(1, 7), F(22, 7), F(99999, 7), F(10000, 3)):
        v += near(d)[1:3]
    out, seen = [], set()
    for x in v:
        if x[0] < 0:
            continue
        x = norm(*x)
        if x not in seen and x[0] < 1 << 40:
            seen.add(x)
            out.append(x)
    return out


# x becomes (a * 2^20 + b) * 2^e; every step is exact.
MAKE = '''
  _r_e_a_l x; _i_n_t_e_g_e_r n, m, k, z;
  _p_r_o_c_e_d_u_r_e make(a, b, e); _v_a_l_u_e a, b, e; _i_n_t_e_g_e_r a, b, e;
  _b_e_g_i_n
    x := a × 1048576.0 + b;
l1: _i_f e ≥ 25 _t_h_e_n _b_e_g_i_n x := x × 33554432.0; e := e - 25; _g_o _t_o l1 _e_n_d;
l2: _i_f e ≤ -25 _t_h_e_n _b_e_g_i_n x := x / 33554432.0; e := e + 25; _g_o _t_o l2 _e_n_d;
l3: _i_f e > 0 _t_h_e_n _b_e_g_i_n x := x × 2; e := e - 1; _g_o _t_o l3 _e_n_d;
l4: _i_f e < 0 _t_h_e_n _b_e_g_i_n x := x / 2; e := e + 1; _g_o _t_o l4 _e_n_d
  _e_n_d;
'''


def call(m, e, neg):
    # Keep the mantissa large so that scaling up comes last.
    return 'make(%d, %d, %d);%s' % (m >> 20, m & 0xfffff, e, ' x := -x;' if neg else '')


class Grid(H.Space):
    def case(self, d):
        m, e, neg = d
        x = F(m) * F(2) ** e * (-1 if neg else 1)
        src = '_b_e_g_i_n' + MAKE + call(m, e, neg) + self.BODY + ' _e_n_d\n'
        key = '%s: x = %s%d*2^%d' % (self.name, '-' if neg else '', m, e)
        combos = list(self.combos())

        def judge(obs):
            o = obs[0]
            if o.status != 0:
                return 'program fails', {'status': 0}
            lines = o.out.decode('utf-8', 'replace').split('\n')
            if len(lines) != len(combos) + 1 or lines[-1]:
                return 'number of lines differs', {'lines': len(combos)}
            for c, g in zip(combos, lines):
                w = self.ok(x, c, g)
                if w:
                    return 'digits or layout differ', {'arguments': c, 'printed': g, 'acceptable': w}
            return None
        return H.Case(key, [H.prog_req(src, cpu=20)], judge, src, len(combos) + 1, len(combos))


class Fixt(Grid):
    name = 'fixt'
    rule = 'FIXT and ABSFIXT for all n, m in -1..22 with n+m <= 23, of values around powers of ten, decimal and binary ties, both signs'
    BODY = ''' _f_o_r n := -1 _s_t_e_p 1 _u_n_t_i_l 22 _d_o _f_o_r m := -1 _s_t_e_p 1 _u_n_t_i_l 22 _d_o
    _i_f n + m < 24 _t_h_e_n _b_e_g_i_n FIXT(n, m, x); PRINTTEXT(`/'); ABSFIXT(n, m, x); PRINTTEXT(`/'); NLCR _e_n_d'''

    def combos(self):
        return [(n, m) for n in range(-1, 23) for m in range(-1, 23) if n + m < 24]

    def descs(self, tier):
        for m, e in values(tier):
            for neg in (False, True):
                if m or not neg:
                    yield m, e, neg

    def ok(self, x, c, g):
        n, m = c
        p = g.split('/')
        a, b = fixt(n, m, x, True), fixt(n, m, x, False)
        if len(p) != 3 or p[2] or p[0] not in a or p[1] not in b:
            return [sorted(a), sorted(b)]


class Flot(Grid):
    name = 'flot'
    rule = 'FLOT for all n in -1..15, m in -1..4 and without m, of machine numbers around every power of ten of the range, decimal ties, both signs'
    BODY = ''' _f_o_r n := -1 _s_t_e_p 1 _u_n_t_i_l 15 _d_o _b_e_g_i_n FLOT(n, x); PRINTTEXT(`/'); NLCR;
     _f_o_r m := -1 _s_t_e_p 1 _u_n_t_i_l 4 _d_o _b_e_g_i_n FLOT(n, m, x); PRINTTEXT(`/'); NLCR _e_n_d _e_n_d'''

    def combos(self):
        return [(n, m) for n in range(-1, 16) for m in (2,) + tuple(range(-1, 5))]

    def descs(self, tier):
        vs = values(tier)
        st = 9 if tier == 'quick' else 1
        for p in range(-615, 616):
            if abs(p) < 14 or abs(abs(p) - 99) < 3 or abs(p) > 612 or p % st == 0:
                vs += [norm(*y) for y in near(pow10(p))]
                vs += [norm(*y) for y in near(F(995, 100) * pow10(p))[1:3]]
        for m, e in dict.fromkeys(vs):
            for neg in (False, True):
                if m or not neg:
                    yield m, e, neg

    def ok(self, x, c, g):
        a = flot(c[0], c[1], x)
        if not g.endswith('/') or g[:-1] not in a:
            return sorted(a)


class Print(Grid):
    name = 'print'
    rule = 'print of the same values, alone and with other arguments, as variable, expression and integer'
    BODY = ''' print(x); NLCR; print(1, x, 2.5); NLCR; n := -7; print(x, n); NLCR; print(x × 1); NLCR; print(-x); NLCR; print(_i_f n < 0 _t_h_e_n x _e_l_s_e n); NLCR'''

    def combos(self):
        return range(6)

    def descs(self, tier):
        return Flot.descs(self, 'thorough')

    def ok(self, x, c, g):
        a = general(x)
        if c == 1:
            a = {'1 %s 2.5' % t for t in a}
        if c == 2:
            a = {'%s -7' % t for t in a}
        if c == 4:
            a = general(-x)
        if g not in a:
            return sorted(a)


class Ints(H.Space):
    name = 'integers'
    rule = 'integers of 1-26 bits, both signs, through print, FIXT, ABSFIXT and FLOT with argument kinds (constant, variable, real arguments n and m)'

    def descs(self, tier):
        vs = {0, 1, 9, 10, 99, 67108863, 67108862}
        for k in range(1, 27):
            vs |= {2 ** k - 1, min(2 ** k, 67108863), 2 ** k // 3}
        for k in range(1, 8):
            vs |= {10 ** k - 1, 10 ** k, 10 ** k + 1}
        for v in sorted(vs):
            for neg in (False, True):
                for kind in ('const', 'var', 'real', 'name'):
                    yield v, neg, kind

    def case(self, d):
        v, neg, kind = d
        x = -v if neg else v
        a = ('-%d' % v if neg else str(v)) if kind == 'const' else 'i' if kind == 'var' else 'r' if kind == 'real' else 'q'
        st = ['print(%s); NLCR;' % a]
        want = [{str(x), '-0' if x == 0 else str(x)}]
        for n in range(0, 11):
            for m in (0, 1, 3):
                st.append('FIXT(%d, %d, %s); NLCR; ABSFIXT(%d, %d, %s); NLCR;' % (n, m, a, n, m, a))
                want += [fixt(n, m, F(x), True), fixt(n, m, F(x), False)]
        for n in (1, 4, 13):
            for m in (1, 2, 3):
                st.append('FLOT(%d, %d, %s); NLCR;' % (n, m, a))
                want.append(flot(n, m, F(x)))
        # rounding of n and m
        for n, nr in (('2.5', 3), ('8.4999', 8), ('7.5', 8), ('.5', 1), ('.4', 0), ('10.0', 10)):
            for m, mr in (('1.6', 2), ('0.4', 0), ('2.5', 3)):
                st.append('FIXT(%s, %s, %s); NLCR; ABSFIXT(%s, %s, %s); NLCR; FLOT(%s, %s, %s); NLCR;' % (n, m, a, n, m, a, n, m, a))
                want += [fixt(nr, mr, F(x), True), fixt(nr, mr, F(x), False), flot(nr, mr, F(x))]
        body = ' '.join(st)
        if kind == 'name':
            src = '_b_e_g_i_n _i_n_t_e_g_e_r i; _p_r_o_c_e_d_u_r_e w(q); _i_n_t_e_g_e_r q; _b_e_g_i_n %s _e_n_d; i := %d; w(i) _e_n_d\n' % (body.rstrip(';'), x)
        else:
            src = '_b_e_g_i_n _i_n_t_e_g_e_r i; _r_e_a_l r; i := %d; r := i; %s _e_n_d\n' % (x, body.rstrip(';'))

        def judge(obs):
            o = obs[0]
            lines = o.out.decode('utf-8', 'replace').split('\n')
            if o.status or len(lines) != len(want) + 1:
                return 'program fails', {'status': 0, 'lines': len(want)}
            for k, (w, g) in enumerate(zip(want, lines)):
                if g not in w:
                    return 'digits or layout differ', {'line': k + 1, 'printed': g, 'acceptable': sorted(w)}
        return H.Case('%s: %d %s' % (self.name, x, kind), [H.prog_req(src)], judge, src, len(want), len(want))


class Layout(H.Space):
    name = 'spacing'
    rule = 'SPACE(n) for n in -5..300 and real n, TAB, NLCR, in all sequences of up to three output operations'
    OPS = [('SPACE(3)', '   '), ('SPACE(0)', ''), ('SPACE(-2)', ''), ('SPACE(2.5)', '   '), ('SPACE(1.49)', ' '), ('TAB', '\t'), ('NLCR', '\n'), ("PRINTTEXT(`ab')", 'ab'), ("PRINTTEXT(`')", ''),
           ('print(5)', '5'), ('FIXT(2, 0, 7)', '+ 7 '), ('FLOT(2, 1, 10)', '+.10⏨+2 '), ('PRSYM(93)', ' '), ('PRSYM(10)', 'a')]

    def descs(self, tier):
        for n in range(-5, 301):
            yield ('n', n)
        for n in (1, 2, 3):
            for c in product(range(len(self.OPS)), repeat=n):
                yield ('s',) + c

    def case(self, d):
        if d[0] == 'n':
            src = "_b_e_g_i_n _i_n_t_e_g_e_r i; i := %d; PRINTTEXT(`<'); SPACE(%d); PRINTTEXT(`>'); SPACE(i); PRINTTEXT(`>') _e_n_d\n" % (d[1], d[1])
            out = '<%s>%s>' % (' ' * max(0, d[1]), ' ' * max(0, d[1]))
        else:
            src = '_b_e_g_i_n ' + '; '.join(self.OPS[k][0] for k in d[1:]) + ' _e_n_d\n'
            out = ''.join(self.OPS[k][1] for k in d[1:])
        return H.Case('%s: %r' % (self.name, d), [H.prog_req(src)], H.expect_run('ok', out, mz=False), src, len(d), len(d) - 1)


def main(tier):
    return H.check('P11', [Fixt(), Flot(), Print(), Ints(), Layout()], tier,
                   assumptions=['digits beyond the 18th significant one may differ by the rounding of 64-bit arithmetic',
                                'exact ties may be rounded either way'])
