"""Reference arithmetic of the X1 Algol system, on exact rationals.

integer : Python int, |v| <= 2^26-1            (27-bit one's complement)
real    : Fraction with a 40-bit significand and binary exponent -2048..2047
          (value = 0.1xxx * 2^exp), rounding to nearest
boolean : Python bool
"""
from fractions import Fraction as F
import decimal

IMAX = (1 << 26) - 1


class RefError(Exception):
    """The program must stop with a run-time error."""


class Undef(Exception):
    """The result is not determined by the property: skip the case."""


def rnd(q, bits=40):
    """Round a rational to a real of the machine."""
    if q == 0:
        return F(0)
    neg = q < 0
    if neg:
        q = -q
    n, d = q.numerator, q.denominator
    e = n.bit_length() - d.bit_length()     # 2^(e-1) < q < 2^(e+1)
    if (n << max(0, -e)) >= (d << max(0, e)):
        e += 1                              # now 2^(e-1) <= q < 2^e
    sh = bits - e
    if sh >= 0:
        n <<= sh
    else:
        d <<= -sh
    m, r = divmod(n, d)
    if 2 * r != d and abs(2 * r - d) << 20 < d:
        raise Undef('almost a tie')
    if 2 * r >= d:
        m += 1
    if m == 1 << bits:
        m >>= 1
        e += 1
    if e > 2047:
        raise RefError('Overflow in real arithmetic')
    if e < -2048:
        return F(0)
    v = F(m << (e - bits)) if e >= bits else F(m, 1 << (bits - e))
    return -v if neg else v


def isint(v):
    return type(v) is int


def icheck(v):
    if v > IMAX or v < -IMAX:
        raise RefError('Overflow in integer arithmetic')
    return v


def add(a, b):
    if isint(a) and isint(b):
        return icheck(a + b)
    return rnd(F(a) + b)


def sub(a, b):
    if isint(a) and isint(b):
        return icheck(a - b)
    return rnd(F(a) - b)


def mul(a, b):
    if isint(a) and isint(b):
        p = a * b
        if -IMAX <= p <= IMAX:
            return p
        return rnd(F(p))
    return rnd(F(a) * b)


def div(a, b):
    if b == 0:
        raise RefError('zero')
    return rnd(F(a) / b)


def idiv(a, b):
    if not (isint(a) and isint(b)):
        raise RefError('Need integer')
    if b == 0:
        raise RefError('zero')
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def _mp(f, *args):
    import mpmath
    with mpmath.workprec(200):
        a = [mpmath.mpf(x.numerator) / x.denominator for x in map(F, args)]
        r = f(mpmath, *a)
        s, man, ex, _ = r._mpf_
        v = F(int(man)) * (F(2) ** ex)
        return rnd(-v if s else v)


def power(a, b):
    if isint(b):
        if b > 0:
            v = F(a) ** b if abs(a) <= 1 or b <= 20000 else None
            if v is None:
                raise RefError('overflow')
            return icheck(int(v)) if isint(a) else rnd(v)
        if a == 0:
            raise RefError('zero')
        if b == 0:
            return 1 if isint(a) else F(1)
        return rnd(F(1) / F(a) ** -b)
    if a > 0:
        return _mp(lambda m, x, y: m.exp(y * m.log(x)), a, b)
    if a == 0 and b > 0:
        return F(0)
    raise RefError('power')


def toint(v):
    """Conversion of a number to integer type: nearest integer."""
    if isint(v):
        return v
    n = abs(v)
    r = (2 * n.numerator + n.denominator) // (2 * n.denominator)   # half away from zero
    return icheck(-r if v < 0 else r)


def istie(v):
    return not isint(v) and v.denominator == 2


def toreal(v):
    return F(v) if isint(v) else v


def entier(v):
    return v if isint(v) else icheck(v.numerator // v.denominator)


def sign(v):
    return (v > 0) - (v < 0)


def sqrt(v):
    if v < 0:
        raise RefError('sqrt')
    return _mp(lambda m, x: m.sqrt(x), v)


def ln(v):
    if v <= 0:
        raise RefError('ln')
    return _mp(lambda m, x: m.log(x), v)


def exp(v):
    if v > 3000:
        raise RefError('exp')
    return _mp(lambda m, x: m.exp(x), v)


def sin(v):
    return _mp(lambda m, x: m.sin(x), v)


def cos(v):
    return _mp(lambda m, x: m.cos(x), v)


def arctan(v):
    return _mp(lambda m, x: m.atan(x), v)


_ctx = decimal.Context(prec=13, rounding=decimal.ROUND_HALF_EVEN, Emin=-99999, Emax=99999)


def fmt_real(v):
    """C's %.13Lg of an exactly known value."""
    if v == 0:
        return '0'
    d = _ctx.divide(decimal.Decimal(v.numerator), decimal.Decimal(v.denominator)) \
        if v.numerator.bit_length() < 40 and v.denominator == 1 else _exact(v)
    s, digs, e = d.as_tuple()
    digs = list(digs)
    x = len(digs) + e - 1                     # decimal exponent
    while len(digs) > 1 and digs[-1] == 0:
        digs.pop()
    ds = ''.join(map(str, digs))
    sg = '-' if s else ''
    if x < -4 or x >= 13:
        return '%s%s%s%se%s%02d' % (sg, ds[0], '.' if len(ds) > 1 else '', ds[1:],
                                    '-' if x < 0 else '+', abs(x))
    if x < 0:
        return sg + '0.' + '0' * (-x - 1) + ds
    if len(ds) <= x + 1:
        return sg + ds + '0' * (x + 1 - len(ds))
    return sg + ds[:x + 1] + '.' + ds[x + 1:]


def _exact(v):
    n, d = abs(v.numerator), v.denominator
    # v = n / 2^k : exact decimal n*5^k / 10^k; round half-even to 13 digits.
    if d & (d - 1) == 0:
        k = d.bit_length() - 1
        n, e = n * 5 ** k, -k
    else:
        raise ValueError('not dyadic')
    s = str(n)
    if len(s) > 13:
        cut = len(s) - 13
        q, r = divmod(n, 10 ** cut)
        h = 10 ** cut // 2
        if r > h or (r == h and q & 1):
            q += 1
        n, e = q, e + cut
    return decimal.Decimal((1 if v < 0 else 0, tuple(map(int, str(n))), e))


def fmt(v):
    return str(v) if isint(v) else fmt_real(v)
