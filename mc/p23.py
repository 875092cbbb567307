"""P23: standard functions are accurate over their whole domain."""
from fractions import Fraction as F
from itertools import product
import mpmath
from . import harness as H, algol as A
import re

KEYW = re.compile(r'\b(%s)\b' % '|'.join(A.KEYWORDS))


def plain(s):
    return KEYW.sub(lambda m: A.U(m.group(1)), s)


# x = (a 2^14 + b) 2^e is built exactly from the numbers of the input, the
# result is taken apart exactly: 20 bits, 20 bits, exponent.
SRC = plain('''begin integer n, a, b, e; real x; integer array pw[0:10]; real array up, dn, th, tl[0:10];
 real procedure mk(a, b, e); value a, b, e; integer a, b, e;
 begin integer i, j; real y; y := a; y := y × 16384 + b; j := if e < 0 then -e else e;
   for i := 10, 10 step -1 until 0 do if j ≥ pw[i] then begin j := j - pw[i]; y := y × (if e > 0 then up[i] else dn[i]) end; mk := y end;
 procedure dump(y); value y; real y;
 begin integer i, s, h; s := 0;
   if y = 0 then print(0) else begin
   if y < 0 then begin print(-1); y := -y end else print(1); SPACE(1);
   if y < dn[9] × dn[8] then begin y := y × up[10]; s := -1024 end;
   for i := 10 step -1 until 0 do begin
     if y ≥ th[i] then begin y := y × dn[i]; s := s + pw[i] end;
     if y < tl[i] then begin y := y × up[i]; s := s - pw[i] end end;
   h := entier(y / 1048576); print(h); SPACE(1); print(entier(y - h × 1048576.0)); SPACE(1); print(s) end; NLCR end;
 procedure tables; begin integer i; up[0] := 2; dn[0] := 0.5; pw[0] := 1;
   for i := 1 step 1 until 10 do begin up[i] := up[i - 1] × up[i - 1]; dn[i] := dn[i - 1] × dn[i - 1]; pw[i] := 2 × pw[i - 1] end;
   for i := 0 step 1 until 10 do begin th[i] := up[5] × 128 × up[i]; tl[i] := up[5] × 256 × dn[i] end end;
 tables;
 n := read;
 l: READX;
 %s;
 n := n - 1; if n > 0 then goto l end
''')
INTSRC = SRC.replace(plain('integer n, a, b, e; real x;'), plain('integer n, x;')).replace('READX', 'x := read')
SRC = SRC.replace('READX', 'a := read; b := read; e := read; x := mk(a, b, e)')

REALF = ('abs', 'sqrt', 'sin', 'cos', 'arctan', 'ln', 'exp')
INTF = ('sign', 'entier')
LIM = F(2) ** 2047
IMAX = 67108863


def exact(fn, x):
    """('ok', Fraction lower, upper) | 'error'; x a Fraction"""
    if fn == 'sign':
        return (x > 0) - (x < 0)
    if fn == 'entier':
        v = x.numerator // x.denominator
        return v if abs(v) <= IMAX else 'error'
    if fn == 'abs':
        return abs(x)
    if fn in ('sqrt',) and x < 0 or fn == 'ln' and x <= 0:
        return 'error'
    bits = 120
    if fn in ('sin', 'cos') and x:
        bits += max(0, x.numerator.bit_length() - x.denominator.bit_length()) + 80
    with mpmath.workprec(bits + 64):
        v = mpmath.mpf(x.numerator) / x.denominator
        if fn == 'exp':
            if x > 1420:
                return 'error'
            if x < -1600:
                return F(0)
        r = getattr(mpmath, {'arctan': 'atan', 'ln': 'log'}.get(fn, fn))(v)
        s, m, e, _ = r._mpf_
        r = F(m) * F(2) ** e * (-1 if s else 1)
    if abs(r) >= LIM:
        return 'error'
    return r


def ulp(r):
    """one unit of the 40-bit mantissa of r"""
    r = abs(r)
    e = r.numerator.bit_length() - r.denominator.bit_length()
    if F(2) ** e > r:
        e -= 1
    return F(2) ** (e - 39)


def good(fn, r, y):
    if fn in ('abs', 'sign', 'entier'):
        return y == r
    if r == 0:
        return y == 0
    if abs(r) < F(2) ** -2040:
        return abs(y - r) <= F(2) ** -2048
    return abs(y - r) <= ulp(r) and (y == 0 or abs(y) < LIM)


def val(a, b, e):
    return (F(a) * 16384 + b) * F(2) ** e


def num(v):
    """(a, b, e) of a 40-bit number"""
    s = -1 if v < 0 else 1
    v = abs(v)
    if v == 0:
        return (0, 0, 0)
    e = v.numerator.bit_length() - v.denominator.bit_length() - 40
    while v / F(2) ** e >= F(2) ** 40:
        e += 1
    while v / F(2) ** e < F(2) ** 39:
        e -= 1
    m = int(v / F(2) ** e)
    return (s * (m >> 14), s * (m & 16383), e)


class Real(H.Space):
    name = 'real arguments'
    rule = '9 functions x signs x binary exponents x structured 40-bit mantissas, and arguments around the critical places of each function'

    def args(self, tier):
        T = 1 << 39
        man = [T, T + 1, T + 2, 2 * T - 1, 2 * T - 2, 3 * T // 2, 3 * T // 2 + 1, 3 * T // 2 - 1, T * 4 // 3, T * 5 // 3, T + (T >> 20), T + (T >> 20) - 1,
               1411423371605 >> 1, 863554413089, 1100000000001 // 2 + T // 4, 0x9249249249]
        man = sorted({m for m in man if T <= m < 2 * T})
        if tier == 'quick':
            exps = sorted(set(range(-12, 30)) | set(range(-48, 64, 5)) | set(range(-2040, 2047, 97)) | {-2048, -2047, -2046, -1024, -1023, 1023, 1024, 2045, 2046})
        else:
            exps = range(-2048, 2047)
        for e in exps:
            for m in man:
                yield m, e - 39, 1
                yield m, e - 39, -1

    def special(self, fn, tier):
        N = 40 if tier == 'quick' else 1500
        r = [F(0)]
        with mpmath.workprec(400):
            def fr(v):
                s, m, e, _ = v._mpf_
                return F(m) * F(2) ** e * (-1 if s else 1)

            def near(v, w=3):
                a, b, e = num(v)
                for d in range(-w, w + 1):
                    r.append(val(a, b, e) + d * F(2) ** e)
            if fn in ('sin', 'cos', 'arctan'):
                for k in list(range(1, N)) + [10 ** j for j in range(2, 40, 3 if tier == 'quick' else 1)]:
                    near(fr(mpmath.pi * k / 4), 1)
                    near(-fr(mpmath.pi * k / 4), 0)
            if fn == 'exp':
                for k in list(range(-N, N)) + list(range(-2060, -2020)) + list(range(2020, 2050)):
                    near(fr(mpmath.log(2) * k), 1)
            if fn == 'ln':
                for k in range(-N, N):
                    r.append(1 + k * F(2) ** (-39 if k > 0 else -40))
                    near(fr(mpmath.exp(k)), 1)
            if fn == 'sqrt':
                for k in range(1, N):
                    near(F(k * k), 1)
                    near(F(k * k, 4 ** 7), 1)
                    near(F((1 << 20) - k) ** 2, 1)
            if fn in ('entier', 'sign', 'abs'):
                for k in list(range(0, N)) + [(1 << j) + d for j in range(3, 28) for d in (-1, 0, 1)]:
                    for d in (F(0), F(1, 2), F(1, 2 ** 10), -F(1, 2 ** 13), F(-1, 4), F(1, 2 ** 40) if k < 2 else F(0), F(-1, 2 ** 40) if k < 2 else F(0)):
                        r.append(k + d)
                        r.append(-k + d)
        return r

    def descs(self, tier):
        for fn in REALF + INTF:
            good, bad = [], []
            for v in [s * F(m) * F(2) ** e for m, e, s in self.args(tier)] + self.special(fn, tier):
                if not (v == 0 or F(2) ** -2048 <= abs(v) < LIM):
                    continue
                q = exact(fn, v)
                (bad if isinstance(q, str) else good).append(num(v))
            for i in range(0, len(good), 60):
                yield (fn, 'ok', tuple(good[i:i + 60]))
            step = 1 if tier != 'quick' else 7
            for x in bad[::step]:
                yield (fn, 'error', (x,))

    def case(self, desc):
        return run_case('real', SRC, desc, lambda x: val(*x), lambda x: '%d %d %d\n' % x)


class Int(H.Space):
    name = 'integer arguments'
    rule = '9 functions x integers: all small ones and around powers of two'

    def descs(self, tier):
        n = 70 if tier == 'quick' else 3000
        xs = sorted(set(range(-n, n + 1)) | {s * ((1 << j) + d) for j in range(2, 27) for d in range(-2, 3) for s in (1, -1) if (1 << j) + d <= IMAX})
        for fn in REALF + INTF:
            good, bad = [], []
            for v in xs:
                (bad if isinstance(exact(fn, F(v)), str) else good).append((v,))
            for i in range(0, len(good), 60):
                yield (fn, 'ok', tuple(good[i:i + 60]))
            for x in bad[::1 if tier != 'quick' else 5]:
                yield (fn, 'error', (x,))

    def case(self, desc):
        return run_case('integer', INTSRC, desc, lambda x: F(x[0]), lambda x: '%d\n' % x)


def run_case(kind, src, desc, value, text):
    fn, st, xs = desc
    src = src % ('dump(%s(x))' % fn)
    inp = ('%d\n' % len(xs) + ''.join(text(x) for x in xs)).encode()

    def judge(obs):
        o = obs[0]
        if st == 'error':
            if o.status != 1 or b'Error:' not in o.err or o.out:
                return '%s(%s) must be an error' % (fn, float_str(value(xs[0]))), {'status': 1}
            return None
        L = o.out.decode('utf-8', 'replace').split('\n')
        for x, l in zip(xs, L):
            r = exact(fn, value(x))
            try:
                w = [int(t) for t in l.split()]
                y = F(0) if len(w) == 1 and w[0] == 0 else w[0] * (F(w[1]) * 1048576 + w[2]) * F(2) ** w[3]
            except (ValueError, IndexError):
                return '%s of %s %s has no value' % (fn, kind, x), {'value': float_str(r), 'line': l}
            if not good(fn, r, y):
                return '%s of %s %s = %s is wrong' % (fn, kind, x, float_str(value(x))), {'value': float_str(r), 'observed': float_str(y)}
        if o.status or len(L) != len(xs) + 1:
            return 'values are missing', {'lines': len(xs)}
        return None
    return H.Case('%s %s %s' % (kind, fn, ' '.join(','.join(map(str, x)) for x in xs[:3])), [H.prog_req(src, inp, cpu=20)], judge, src + inp.decode(),
                  len(xs), len(xs))


def float_str(r):
    with mpmath.workprec(80):
        return mpmath.nstr(mpmath.mpf(r.numerator if isinstance(r, F) else r) / (r.denominator if isinstance(r, F) else 1), 18)


class Types(H.Space):
    name = 'types of results'
    rule = '9 functions x argument types: the result is accepted by ÷ exactly if it is an integer'

    def descs(self, tier):
        for fn in REALF + INTF:
            for a in ('1', '1.0', 'i', 'x', 'i + 1', 'x + 1', '-i', 'a[1]', 'r[1]', 'abs(i)', 'sign(x)'):
                yield (fn, a)

    def case(self, desc):
        fn, a = desc
        src = plain("begin integer i; real x; integer array a[1:1]; array r[1:1]; i := 1; x := 1; a[1] := 1; r[1] := 1; PRINTTEXT(`v'); print(%s(%s) ÷ 1) end\n" % (fn, a))
        if fn in INTF:
            v = -1 if a == '-i' else 2 if '+' in a and fn == 'entier' else 1
            j = H.expect_run('ok', 'v%d' % v)
        else:
            if a == '-i' and fn in ('sqrt', 'ln'):
                pass
            j = H.expect_run('error', 'v')
        return H.Case('type %s(%s)' % desc, [H.prog_req(src)], j, src)


class Library(H.Space):
    name = 'EVEN, SUM, RANDOM, SETRANDOM, TIMEOFDAY'
    rule = 'EVEN of all small integers and around powers of two; SUM over all bounds -5..6 x 8 summands x kinds of summation variable; random sequences of 40 seeds x 200 values; TIMEOFDAY in all time zones (steps of 45, thorough 15, minutes) between the readings of the clock before and after'
    TERMS = ['k', '1', 'k × k', '1 / (k + 9)', 'a[k]', 'x', 'if k > 2 then k else 0.5', 'SUM(j, 1, k, j)']

    def descs(self, tier):
        n = 300 if tier == 'quick' else 20000
        xs = sorted(set(range(-n, n + 1)) | {s * ((1 << j) + d) for j in range(2, 27) for d in range(-2, 3) for s in (1, -1) if (1 << j) + d <= IMAX})
        for i in range(0, len(xs), 100):
            yield ('EVEN', tuple(xs[i:i + 100]))
        for t in range(len(self.TERMS)):
            for lo in range(-5, 7):
                yield ('SUM', t, lo)
        for s in range(40 if tier == 'quick' else 400):
            yield ('RANDOM', s)
        yield ('range', 0)
        for m in range(-12 * 60, 14 * 60 + 1, 15 if tier != 'quick' else 45):
            yield ('TIME', m)

    def case(self, desc):
        k = desc[0]
        if k == 'EVEN':
            src = plain('begin integer n, i, x; n := read; for i := 1 step 1 until n do begin x := read; print(EVEN(x)); NLCR end end\n')
            inp = '%d\n' % len(desc[1]) + '\n'.join(map(str, desc[1])) + '\n'
            return H.Case('EVEN %d' % desc[1][0], [H.prog_req(src, inp.encode())], H.expect_run('ok', ''.join('%d\n' % (1 if x % 2 == 0 else -1) for x in desc[1])),
                          src + inp, len(desc[1]), len(desc[1]))
        if k == 'SUM':
            return self.sum(desc)
        if k == 'TIME':
            return self.time(desc[1])
        if k == 'RANDOM':
            # the sequence of a seed is determined by the seed, in [0, 1), and not constant
            seed = ['0', '0.5', '0.25', '1⏨-9', '0.999999'][desc[1] % 5] if desc[1] < 5 else '%d / 7919' % (desc[1] * 131)
            src = plain('begin integer i; real s; for s := %s, 0.123456, %s do begin SETRANDOM(s); for i := 1 step 1 until 200 do begin print(RANDOM); NLCR end end end\n' % (seed, seed))

            def judge(obs):
                L = obs[0].out.decode().split('\n')
                if obs[0].status or len(L) != 601:
                    return 'no sequence', {'lines': 600}
                v = [float(x) for x in L[:-1]]
                if any(not 0 <= x < 1 for x in v):
                    return 'a value is outside [0, 1)', {}
                if v[:200] != v[400:]:
                    return 'the same seed gives another sequence', {}
                if len(set(v[:200])) < 199 or v[:200] == v[200:400]:
                    return 'the values repeat', {}
                if not 0.35 < sum(v[:200]) / 200 < 0.65:
                    return 'the values are not uniform', {}
                return None
            return H.Case('RANDOM %s' % seed, [H.prog_req(src)], judge, src, 600, 600)
        src = plain('begin integer i, n; n := 0; for i := 1 step 1 until 20000 do if RANDOM ≥ 1 ∨ RANDOM < 0 then n := n + 1; print(n) end\n')
        return H.Case('RANDOM range', [H.prog_req(src, cpu=20)], H.expect_run('ok', '0'), src, 40000, 40000)

    def time(self, m):
        # local time in seconds since midnight, between the times before and after the call
        src = plain('begin real a, b; integer i; a := TIMEOFDAY; for i := 1 step 1 until 50 do if TIMEOFDAY < a then print(-1); b := TIMEOFDAY; print(entier(a)); SPACE(1); print(a - entier(a)); SPACE(1); print(b - a) end\n')
        tz = 'XXX%s%d:%02d' % ('-' if m > 0 else '', abs(m) // 60, abs(m) % 60)
        r = H.prog_req(src, env=['TZ=' + tz])
        r.args = ['sh', '-c', 'date -u +%s.%N; x1sim p.a60; s=$?; echo; date -u +%s.%N; exit $s']

        def judge(obs):
            L = obs[0].out.decode().split('\n')
            try:
                t0, t1 = float(L[0]) + m * 60, float(L[2]) + m * 60
                v = [float(x) for x in L[1].split()]
            except (ValueError, IndexError):
                return 'no time', {}
            if t0 // 86400 != t1 // 86400:
                return None         # midnight passes during the run: no answer
            t0 %= 86400
            t1 %= 86400
            if obs[0].status or len(v) != 3 or not (t0 - 0.01 <= v[0] + v[1] and v[0] + v[1] + v[2] <= t1 + 0.01 and 0 <= v[1] < 1 and v[2] >= 0):
                return 'not the time of day', {'between': [t0, t1], 'offset minutes': m}
            return None
        return H.Case('TIMEOFDAY %d' % m, [r], judge, src, 52, 52)

    def sum(self, desc):
        _, t, lo = desc
        st, exp = [], []
        for hi in range(-5, 7):
            for var in ('k', 'b[2]', 'y'):
                term = self.TERMS[t].replace('k', var)
                if var == 'y' and t in (4, 7):
                    continue
                st.append('%s := 77; print(SUM(%s, %d, %d, %s)); SPACE(1); print(%s); NLCR' % (var, var, lo, hi, term, var))
                v = F(0)
                for q in range(lo, hi + 1):
                    v += [F(q), F(1), F(q * q), F(1, q + 9), F(10 * q), F(5, 2), F(q) if q > 2 else F(1, 2), F(q * (q + 1) // 2 if q > 0 else 0)][t]
                exp.append((v, max(lo, hi + 1)))
        src = plain('begin integer k, j; real x, y; integer array a[-9:9], b[1:3]; for k := -9 step 1 until 9 do a[k] := 10 × k; x := 2.5;\n' + ';\n'.join(st) + ' end\n')

        def judge(obs):
            L = obs[0].out.decode().split('\n')
            if obs[0].status or len(L) != len(exp) + 1:
                return 'no result', {'lines': len(exp)}
            for (v, e), l in zip(exp, L):
                w = l.split()
                if len(w) != 2 or w[1] != str(e) or abs(F(float(w[0])) - v) > F(1, 10 ** 10):
                    return 'a sum is wrong', {'sum': float(v), 'variable': e, 'line': l}
            return None
        return H.Case('SUM %s from %d' % (self.TERMS[t], lo), [H.prog_req(src)], judge, src, len(exp), len(exp))


def main(tier):
    return H.check('P23', [Types(), Library(), Int(), Real()], tier,
                   assumptions=['the exact scaling by powers of two, by which arguments are built and results taken apart, is decided by P03 and P04'])
