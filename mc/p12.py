"""P12: input operations consume exactly the data and never invent any."""
from fractions import Fraction as F
from itertools import product
import os
import re
from . import harness as H
from .p11 import general

IMAX = (1 << 26) - 1
WS = b' \t\n\v\f\r'
TEN = '⏨'.encode()


def gen(v):
    """acceptable printed forms of the number read"""
    r = set()
    for w in to_x1(v):
        r |= general(w)
    return r


def to_x1(v):
    """nearest machine reals (two next to a tie: the host reads 64 bits)"""
    if v == 0:
        return [F(0)]
    s, v = (-1, -v) if v < 0 else (1, v)
    e = v.numerator.bit_length() - v.denominator.bit_length() - 40
    while v / F(2) ** e >= 1 << 40:
        e += 1
    while v / F(2) ** e < 1 << 39:
        e -= 1
    q = v / F(2) ** e
    m = q.numerator // q.denominator
    d = q - m - F(1, 2)
    r = [m, m + 1] if abs(d) < F(1, 1 << 20) else [m + 1] if d > 0 else [m]
    return [s * x * F(2) ** e for x in r]


class Fail(Exception):
    pass


class Skip(Exception):
    pass


class Input:
    """Model of the data stream and the console switches."""

    def __init__(self, data):
        self.d = data
        self.p = 0
        self.sw = None
        self.steps = 0

    def peek(self):
        """next symbol of a number tape: byte, or E for ⏨"""
        if self.d.startswith(TEN, self.p):
            return 'E', 3
        if self.p >= len(self.d):
            return None, 0
        return chr(self.d[self.p]), 1

    def read(self):
        while self.p < len(self.d) and self.d[self.p] in WS:
            self.p += 1
            self.steps += 1
        acc = ''
        dot = exp = dig = False
        while True:
            c, n = self.peek()
            self.steps += 1
            if c is None:
                break
            if c.isdigit() and c.isascii():
                dig = True
            elif c in '+-':
                if acc and acc[-1] not in 'eE':
                    break
            elif c == '.':
                if dot or exp:
                    break
                dot = True
            elif c in 'eE':
                if exp or not dig:
                    break
                exp = True
            else:
                break
            acc += c
            self.p += n
        if not re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', acc):
            raise Fail
        c, n = self.peek()
        if c is not None and c not in '+-.eE':
            self.p += n         # one terminating symbol belongs to the number
        elif n == 3:
            self.glued = True
        m = re.fullmatch(r'([+-]?)(\d*)\.?(\d*)(?:[eE]([+-]?\d+))?', acc)
        v = F(int((m.group(2) + m.group(3)) or '0')) * F(10) ** (int(m.group(4) or 0) - len(m.group(3)))
        v = -v if m.group(1) == '-' else v
        if abs(to_x1(v)[0]) >= F(2) ** 2047:
            raise Fail
        if v and abs(v) < F(2) ** -2048:
            v = F(0)
        return v

    def sym(self):
        while self.p < len(self.d) and self.d[self.p] == 13:
            self.p += 1
        if self.p >= len(self.d):
            return 255
        for k, code in MULTI.items():
            if self.d.startswith(k, self.p):
                self.p += len(k)
                return code
        b = self.d[self.p]
        if b >= 128 and MULTI_PREFIX(self.d[self.p:]):
            return 255          # end of input within a symbol
        if b not in SINGLE:
            raise Fail
        self.p += 1
        return SINGLE[b]

    def xeen(self, mask):
        if self.sw is None:
            if self.p >= len(self.d):
                raise Fail
            e = self.d.find(b'\n', self.p)
            line = self.d[self.p:] if e < 0 else self.d[self.p:e]
            self.p = len(self.d) if e < 0 else e + 1
            m = re.fullmatch(rb'[ \t\r]*([01]+)[ \t\r]*', line)
            if not m or int(m.group(1), 2) >= 1 << 27:
                raise Fail
            self.sw = int(m.group(1), 2)
        mask = (1 << 27) - 1 if mask == 0 else mask if mask > 0 else (1 << 27) - 1 + mask
        v = self.sw & mask
        return v if v <= IMAX else v - (1 << 27) + 1

    def stop(self):
        self.sw = None


# doc/algol-encoding.md
SINGLE = {ord(c): k for k, c in enumerate('0123456789abcdefghijklmnopqrstuvwxyz')}
SINGLE.update({ord(c): 37 + k for k, c in enumerate('ABCDEFGHIJKLMNOPQRSTUVWXYZ')})
SINGLE.update({ord(c): k for c, k in {'+': 64, '-': 65, '*': 66, '/': 67, '>': 70, '=': 72, '<': 74, ',': 87, '.': 88, '@': 89, ':': 90, ';': 91, ' ': 93, '(': 98, ')': 99,
                                     '[': 100, ']': 101, '`': 102, "'": 103, '\t': 118, '\n': 119, '"': 121, '?': 122, '|': 162, '_': 163}.items()})
MULTI = {c.encode(): k for c, k in {'×': 66, '÷': 68, '↑': 69, '≥': 71, '≤': 73, '≠': 75, '¬': 76, '∧': 77, '∨': 78, '⊃': 79, '≡': 80, '⏨': 89}.items()}


def MULTI_PREFIX(b):
    return any(k.startswith(b) and len(b) < len(k) for k in MULTI)


def expect(outs, failed):
    """outs: list of strings or sets of acceptable strings"""
    def judge(obs):
        o = obs[0]
        lines = o.out.decode('utf-8', 'replace').split('\n')
        want = {'status': 1 if failed else 0, 'lines': [sorted(x) if isinstance(x, set) else x for x in outs][:60]}
        if (o.status != 0) != failed or (failed and (o.status != 1 or b'Error:' not in o.err)):
            return 'exit status or error message differ from the model', want
        if len(lines) != len(outs) + 1 or lines[-1]:
            return 'number of values differs from the model', want
        for w, g in zip(outs, lines):
            if (g not in w) if isinstance(w, set) else g != w:
                return 'a value differs from the model', dict(want, line=[sorted(w) if isinstance(w, set) else w, g])
        return None
    return judge


LOOP = '_b_e_g_i_n l: print(read); NLCR; _g_o _t_o l _e_n_d\n'


class Strings(H.Space):
    name = 'read-strings'
    rule = 'read until the error at the end, for all inputs over 1 0 . e ⏨ + - space newline comma up to length 4 (quick) or 6'
    AL = ['1', '0', '.', 'e', '⏨', '+', '-', ' ', '\n', ',']

    def descs(self, tier):
        for n in range(0, 5 if tier == 'quick' else 7):
            for c in product(range(len(self.AL)), repeat=n):
                yield c

    def case(self, c):
        s = ''.join(self.AL[k] for k in c)
        i = Input(s.encode())
        outs = []
        try:
            while True:
                outs.append(gen(i.read()))
        except Fail:
            pass
        return H.Case('%s: %r' % (self.name, s), [H.prog_req(LOOP, input=s.encode())], expect(outs, True), repr(s), len(c) + 1, i.steps)


class Numbers(H.Space):
    name = 'read-numbers'
    rule = 'all numbers built from sign x integer part x fraction x exponent (marker, sign, digits) x separator, several to an input'
    INTS = ['', '0', '7', '007', '67108863', '67108864', '1099511627775', '1099511627776', '99999999999999999999', '123456789.']
    FR = ['', '.5', '.0', '.000001', '.99999999999', '.12345678901234567890']
    EX = ['', '0', '1', '5', '05', '12', '300', '600', '617', '999']
    SEP = [' ', '\n', '\t', '\r\n', ' \n\n ', ',', ';']

    def descs(self, tier):
        for a in self.INTS:
            for f in self.FR:
                if a.endswith('.') and f or not (a + f):
                    continue
                for m in (('e', 'E', '⏨') if tier != 'quick' else ('e', '⏨') if a in ('7', '') else ('E', '⏨')):
                    for es in ('', '+', '-'):
                        for sep in self.SEP:
                            yield a, f, m, es, sep

    def case(self, d):
        a, f, m, es, sep = d
        data, outs = '', []
        for e in self.EX:
            for sg in ('', '+', '-'):
                t = sg + a + f + (m + es + e if e else '')
                i = Input((t + ' ').encode())
                try:
                    outs.append(gen(i.read()))
                    data += t + sep
                except Fail:
                    pass
        src = '_b_e_g_i_n _i_n_t_e_g_e_r i; _f_o_r i := 1 _s_t_e_p 1 _u_n_t_i_l %d _d_o _b_e_g_i_n print(read); NLCR _e_n_d _e_n_d\n' % len(outs)
        return H.Case('%s: %r' % (self.name, d), [H.prog_req(src, input=data.encode())], expect(outs, False), data, len(outs), len(data))


class Overflow(H.Space):
    name = 'read-out-of-range'
    rule = 'numbers beyond the range of reals: error; below it: zero'

    def descs(self, tier):
        for a in ('1', '-1', '9.99', '.001', '123'):
            for e in list(range(614, 622)) + [1000, 4931, 4932, 4940, 5000, 99999, 9999999999]:
                for s in ('', '-'):
                    yield a, s, e

    def case(self, d):
        a, s, e = d
        t = '%s⏨%s%d' % (a, s, e)
        if e > 4000 and not s:
            outs = []
        else:
            try:
                outs = [gen(Input(t.encode()).read())] if e < 2000 else None
            except Fail:
                outs = []
        if outs is None:
            # so small that the conversion may refuse it: zero or an error
            def judge(obs):
                o = obs[0]
                g = o.out.decode()
                if o.status != 1 or g not in ('', '0\n', '-0\n'):
                    return 'a value is invented', {'stdout': ['', '0']}
            return H.Case('%s: %s' % (self.name, t), [H.prog_req(LOOP, input=t.encode())], judge, t, 2, 1)
        return H.Case('%s: %s' % (self.name, t), [H.prog_req(LOOP, input=t.encode())], expect(outs, True), t, 2, 1)


class Bytes(H.Space):
    name = 'resym-bytes'
    rule = 'RESYM of every byte, every two-byte sequence starting with a byte >= 128 and every three-byte sequence with a known two-byte beginning, and truncations'

    def descs(self, tier):
        for b in range(256):
            yield bytes([b])
            yield bytes([b, 97])
            yield bytes([b, 13, 98, 13])
        for b in range(0x80, 0x100) if tier != 'quick' else (0xc2, 0xc3, 0xe2, 0xcc, 0xff):
            for c in range(256):
                yield bytes([b, c])
        for c in {k[1] for k in MULTI if len(k) == 3}:
            for x in range(256) if tier != 'quick' else range(0x80, 0xc0):
                yield bytes([0xe2, c, x])
                yield bytes([0xe2, c, x, 49])

    def case(self, d):
        src = '_b_e_g_i_n _i_n_t_e_g_e_r k; l: k := RESYM; print(k); NLCR; _i_f k ≠ 255 _t_h_e_n _g_o _t_o l _e_n_d\n'
        i = Input(d)
        outs, bad = [], False
        try:
            while True:
                outs.append(str(i.sym()))
                if outs[-1] == '255':
                    break
        except Fail:
            bad = True
        return H.Case('%s: %s' % (self.name, d.hex()), [H.prog_req(src, input=d)], expect(outs, bad), d.hex(), len(d) + 1, len(d))


def MASKS():
    r = {0, 1, 2, 3, 5, 7, 100, IMAX, IMAX - 1, -IMAX, -1, -2, -8, -1000}
    for k in range(26):
        r |= {1 << k, -(1 << k)}
    return sorted(r)


class Switches(H.Space):
    name = 'xeen-values'
    rule = 'XEEN of every single-bit mask and its complement, 0 and limits, for switch settings of every length 1-27 (all ones, one zero, one one, alternating), all settings up to 6 digits, layout around them'

    def descs(self, tier):
        s = set()
        for n in range(1, 28):
            s |= {'1' * n, '1' + '0' * (n - 1), '0' * (n - 1) + '1', ('10' * 14)[:n], ('01' * 14)[:n], '0' * n}
            if n > 2:
                s.add('1' * (n - 2) + '01')
        for n in range(1, 7):
            s |= {''.join(c) for c in product('01', repeat=n)}
        for t in sorted(s):
            yield t
        for t in ('101', '1' * 27):
            for pre in ('', ' ', '\t', '  '):
                for post in ('', ' ', '\r', '\t '):
                    if pre or post:
                        yield pre + t + post

    def case(self, t):
        ms = MASKS()
        src = '_b_e_g_i_n _i_n_t_e_g_e_r i; ' + '; '.join('print(XEEN(%d)); NLCR' % m for m in ms) + '; stop; i := XEEN(0); print(i); NLCR; print(XEEN(1.5)); NLCR; print(XEEN(-0.4)); NLCR _e_n_d\n'
        data = t + '\n' + '110\n'
        i = Input(data.encode())
        outs = [i.xeen(m) for m in ms]
        i.stop()
        outs += [i.xeen(0), i.xeen(2), i.xeen(0)]
        return H.Case('%s: %r' % (self.name, t), [H.prog_req(src, input=data.encode())], expect([{str(o), '-0'} if o == 0 else str(o) for o in outs], False), repr(data), len(ms), len(ms))


class BadSwitches(H.Space):
    name = 'xeen-lines'
    rule = 'all lines over 0 1 2 - + b x space tab up to length 4, and lines of 26-40 digits, with and without newline: accepted exactly when they are up to 27 binary digits'

    def descs(self, tier):
        al = '01-+b2 \t.x'
        for n in range(0, 4 if tier == 'quick' else 6):
            for c in product(al, repeat=n):
                yield ''.join(c)
        for n in range(26, 41):
            for t in ('1' * n, '0' * (n - 1) + '1', '0' * (n - 27) + '1' * 27 if n > 27 else '1' * n, '1' * 64, '1' * 70, '1' + '0' * 63):
                yield t

    def case(self, t):
        src = '_b_e_g_i_n print(XEEN(0)); NLCR; print(XEEN(1)); NLCR; print(RESYM); NLCR _e_n_d\n'
        reqs, want = [], []
        for data in (t + '\n', t, t + '\n1'):
            i = Input(data.encode())
            outs, bad = [], False
            try:
                outs.append(i.xeen(0))
                outs.append(i.xeen(1))
                outs.append(i.sym())
            except Fail:
                bad = True
            reqs.append(H.prog_req(src, input=data.encode()))
            want.append(expect([{str(o), '-0'} if o == 0 else str(o) for o in outs], bad))

        def judge(obs):
            for o, w in zip(obs, want):
                r = w([o])
                if r:
                    return r
        return H.Case('%s: %r' % (self.name, t), reqs, judge, repr(t), 3, 3)


OPS = {'R': 'print(read)', 'S': 'print(RESYM)', 'X': 'print(XEEN(0))', 'Y': 'print(XEEN(-2))', 'T': 'stop'}


class Mixed(H.Space):
    name = 'mixed'
    rule = 'all sequences of up to 3 (quick) or 4 operations read, RESYM, XEEN(0), XEEN(-2), stop over all inputs of up to 3 (quick) or 4 characters of 1 0 - space newline, and inputs built from whole items'
    AL = '10- \n'

    def descs(self, tier):
        L = 3 if tier == 'quick' else 4
        ins = [''.join(c) for n in range(L + 1) for c in product(self.AL, repeat=n)]
        items = ['12\n', '101\n', 'a', '-3.5 ', '\n', '+1']
        ins2 = [''.join(c) for n in range(2, 4 if tier == 'quick' else 5) for c in product(items, repeat=n)]
        for n in range(1, L + 1):
            for ops in product('RSXYT', repeat=n):
                if ops[-1] == 'T' or not ('R' in ops or 'S' in ops or 'X' in ops):
                    continue
                for s in ins:
                    yield ''.join(ops), s
                if n == L or 'T' in ops:
                    for s in ins2:
                        yield ''.join(ops), s

    def case(self, d):
        ops, s = d
        i = Input(s.encode())
        outs, bad = [], False
        try:
            for o in ops:
                if o == 'R':
                    outs.append(gen(i.read()))
                elif o == 'S':
                    outs.append(str(i.sym()))
                elif o == 'T':
                    i.stop()
                else:
                    v = i.xeen(0 if o == 'X' else -2)
                    outs.append({str(v), '-0'} if v == 0 else str(v))
        except Fail:
            bad = True
        src = '_b_e_g_i_n ' + '; '.join(OPS[o] + ('; NLCR' if o != 'T' else '') for o in ops) + ' _e_n_d\n'
        return H.Case('%s: %s %r' % (self.name, ops, s), [H.prog_req(src, input=s.encode())], expect(outs, bad), src + repr(s), len(ops) + 1, len(ops))


class Kinds(H.Space):
    name = 'places'
    rule = 'read, RESYM and XEEN in all places where a value is used: operands, subscripts, bounds, for lists, conditions, value and name parameters; the order of the data is the order of evaluation'
    # (declarations, statements, data, output)
    LIST = [
        ('', 'print(read - read)', '7 2', '5'),
        ('', 'print(read - read × read)', '70 2 3', '64'),
        ('_i_n_t_e_g_e_r k;', '_f_o_r k := read _s_t_e_p read _u_n_t_i_l 9 _d_o print(k)', '3 4 5 6 7 8', None),
        ('_i_n_t_e_g_e_r k;', '_f_o_r k := read, read, read _d_o _b_e_g_i_n print(k); SPACE(1) _e_n_d', '3 -4 2.5 6', '3 -4 3 '),
        ('_i_n_t_e_g_e_r k; k := 0;', '_f_o_r k := k + 1 _w_h_i_l_e read > 0 _d_o print(k)', '3 1 2 0 9', '123'),
        ('_i_n_t_e_g_e_r _a_r_r_a_y a[1:3];', 'a[1] := 5; a[2] := 6; a[3] := 7; print(a[read]); print(a[read])', '3 1', '75'),
        ('_i_n_t_e_g_e_r _a_r_r_a_y a[1:3];', 'a[1] := 5; a[read] := read; a[read] := read; print(a[1], a[2], a[3])', '3 44 2 55', '5 55 44'),
        ('', '_i_f read > read _t_h_e_n print(1) _e_l_s_e print(2)', '5 3', '1'),
        ('', '_i_f read > 3 ∧ read > 3 _t_h_e_n print(1) _e_l_s_e print(2); print(read)', '1 5 9', '29'),
        ('_p_r_o_c_e_d_u_r_e p(a, b); _v_a_l_u_e a, b; _r_e_a_l a, b; print(a, b, a);', 'p(read, read)', '1 2 3', '1 2 1'),
        ('_p_r_o_c_e_d_u_r_e p(a); _r_e_a_l a; _b_e_g_i_n print(a); SPACE(1); print(a) _e_n_d;', 'p(read)', '1 2 3', '1 2'),
        ('_p_r_o_c_e_d_u_r_e p(a); _i_n_t_e_g_e_r _p_r_o_c_e_d_u_r_e a; _b_e_g_i_n print(a); SPACE(1); print(a) _e_n_d;', 'p(RESYM)', 'ab', '10 11'),
        ('_p_r_o_c_e_d_u_r_e p(a); _i_n_t_e_g_e_r a; _b_e_g_i_n print(a); SPACE(1); print(a) _e_n_d;', 'p(RESYM)', 'ab', '10 11'),
        ('_p_r_o_c_e_d_u_r_e p(a); _i_n_t_e_g_e_r a; _b_e_g_i_n print(a); stop; SPACE(1); print(a) _e_n_d;', 'p(XEEN(3))', '111\n10\n', '3 2'),
        ('_p_r_o_c_e_d_u_r_e p(n); _v_a_l_u_e n; _i_n_t_e_g_e_r n; _b_e_g_i_n _i_n_t_e_g_e_r _a_r_r_a_y a[n:read]; a[n] := 3; a[7] := 4; print(a[n] + a[7]) _e_n_d;', 'p(read)', '2 7', '7'),
        ('_i_n_t_e_g_e_r k;', 'k := read; print(k); k := RESYM; print(k)', '12\na', '1210'),
        ('_i_n_t_e_g_e_r k;', 'k := read; print(k); k := RESYM; print(k)', '12 \na', '12119'),
        ('_r_e_a_l x; _i_n_t_e_g_e_r k;', 'x := read; k := XEEN(0); print(x, k, read)', '12\n110\n5', '12 6 5'),
        ('_p_r_o_c_e_d_u_r_e r(x); _r_e_a_l x; x := read;', '_b_e_g_i_n _r_e_a_l u; _i_n_t_e_g_e_r v; r(u); r(v); print(u, v) _e_n_d', '1.25 1.75', '1.25 2'),
        ('_r_e_a_l _p_r_o_c_e_d_u_r_e s(n); _v_a_l_u_e n; _i_n_t_e_g_e_r n; s := _i_f n = 0 _t_h_e_n 0 _e_l_s_e read + s(n - 1);', 'print(s(3), s(2))', '1 2 4 8 16 32', '7 24'),
        ('_s_w_i_t_c_h q := l1, l2;', '_g_o _t_o q[read]; l1: print(1); l2: print(2)', '2', '2'),
        ('_i_n_t_e_g_e_r i;', 'print(SUM(i, 1, 4, read))', '1 2 4 8', '15'),
        ('', 'print(entier(read), abs(read), sign(read))', '2.5 -3 -9', '2 3 -1'),
        ('', 'print(-read, read ↑ read, read ÷ 2)', '4 2 3 7', None),
        ('_b_o_o_l_e_a_n b;', 'b := read = read; _i_f b _t_h_e_n print(1) _e_l_s_e print(0)', '0.1 .10', '1'),
        ('_b_o_o_l_e_a_n b;', 'b := read = read; _i_f b _t_h_e_n print(1) _e_l_s_e print(0)', '0.1 .1001', '0'),
    ]

    def descs(self, tier):
        for k, c in enumerate(self.LIST):
            if c[3] is None:
                continue
            for ctx in ('main', 'proc', 'block', 'loop'):
                yield k, ctx

    def case(self, d):
        k, ctx = d
        dec, st, data, out = self.LIST[k]
        ini = ''
        if ';' in dec and ':=' in dec and not dec.startswith(('_p', '_r_e_a_l _p', '_s')):
            dec, ini = dec.split(';', 1)[0] + ';', dec.split(';', 1)[1]
        if ctx == 'main':
            src = '_b_e_g_i_n %s %s %s _e_n_d\n' % (dec, ini, st)
        elif ctx == 'proc':
            src = '_b_e_g_i_n _p_r_o_c_e_d_u_r_e w; _b_e_g_i_n %s %s %s _e_n_d; w _e_n_d\n' % (dec, ini, st)
        elif ctx == 'block':
            src = '_b_e_g_i_n _i_n_t_e_g_e_r z; z := 1; _b_e_g_i_n %s %s %s _e_n_d _e_n_d\n' % (dec, ini, st)
        else:
            src = '_b_e_g_i_n _i_n_t_e_g_e_r z; _f_o_r z := 1, 2 _d_o _b_e_g_i_n %s %s %s _e_n_d _e_n_d\n' % (dec, ini, st)
            if len(data.split()) > 3 and 'read' not in st:
                return None
            data, out = data.rstrip('\n') + '\n' + data, out + out
            if d[0] in (2, 3, 4, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19):
                return None     # leaves data unread
        return H.Case('%s: %d %s' % (self.name, k, ctx), [H.prog_req(src, input=data.encode())], H.expect_run('ok', out), src, 2, 1)


class Terminal(Input):
    """The console: what cannot be read is asked for again."""

    def read(self):
        while True:
            try:
                return Input.read(self)
            except Fail:
                if self.p >= len(self.d):
                    raise
                e = self.d.find(b'\n', self.p)
                self.p = len(self.d) if e < 0 else e + 1

    def xeen(self, mask):
        while True:
            try:
                return Input.xeen(self, mask)
            except Fail:
                if self.p >= len(self.d):
                    raise


class Interactive(H.Space):
    name = 'terminal'
    rule = 'standard input a terminal: all sequences of up to 2 (quick) or 3 operations read, RESYM, XEEN(0), XEEN(-2), stop, with all inputs of up to 2 (quick) or 3 lines from a menu of good and bad numbers and settings, with and without a last newline, then end of file: what cannot be read is skipped to the end of its line and asked for again; the values are those of the model'
    MENU = ['5\n', '-2.5\n', '1⏨2\n', '7 8\n', 'abc\n', '\n', '4x\n', '101\n', '102\n', '1e\n', '+-1 3\n', ' 11 \n', '1' * 28 + '\n']

    def descs(self, tier):
        L = 2 if tier == 'quick' else 3
        for n in range(1, L + 1):
            for ops in product('RSXYT', repeat=n):
                if ops[-1] == 'T' or ops[0] == 'T':
                    continue
                for m in range(0, L + 1):
                    for c in product(range(len(self.MENU)), repeat=m):
                        if tier != 'quick' and n == 3 and m == 3 and sum(c) % 4:
                            continue
                        yield ''.join(ops), c, False
                        if m and m < 3:
                            yield ''.join(ops), c, True

    def case(self, d):
        ops, c, cut = d
        data = ''.join(self.MENU[k] for k in c)
        if cut:
            data = data[:-1]
        i = Terminal(data.encode())
        outs, bad = [], False
        try:
            for o in ops:
                if o == 'R':
                    outs.append(gen(i.read()))
                elif o == 'S':
                    outs.append({str(i.sym())})
                elif o == 'T':
                    i.stop()
                else:
                    v = i.xeen(0 if o == 'X' else -2)
                    outs.append({str(v), '-0'} if v == 0 else {str(v)})
        except Fail:
            bad = True
        st = {'R': 'x := read', 'S': 'x := RESYM', 'X': 'x := XEEN(0)', 'Y': 'x := XEEN(-2)'}
        src = '_b_e_g_i_n _r_e_a_l x; ' + '; '.join('stop' if o == 'T' else st[o] + '; PRINTTEXT(`[\'); print(x); PRINTTEXT(`]\')' for o in ops) + ' _e_n_d\n'

        def judge(obs):
            o = obs[0]
            got = re.findall(r'\[([^\[\]]*)\]', o.out.decode('utf-8', 'replace'))
            want = {'status': int(bad), 'values': [sorted(w) for w in outs]}
            if (o.status != 0) != bad or bad and (o.status != 1 or b'Error:' not in o.err):
                return 'exit status or error message differ from the model', want
            if len(got) != len(outs) or any(g not in w for w, g in zip(outs, got)):
                return 'the values differ from the model', want
        req = H.Req(['ttyrun', os.path.join(H.BUILD, 'x1sim'), 'p.a60'], [('p.a60', src)], data.encode())
        return H.Case('%s: %s %r' % (self.name, ops, data), [req], judge, src + repr(data), len(ops) + len(c), len(ops))


def main(tier):
    spaces = [Strings(), Numbers(), Overflow(), Bytes(), Switches(), BadSwitches(), Mixed(), Kinds()]
    notes = ['one terminating symbol that cannot continue a number is consumed with it']
    try:
        for f in os.openpty():
            os.close(f)
        spaces.append(Interactive())
    except OSError as e:
        notes.append('no terminal could be made here (%s): the space terminal was left out' % e)
    return H.check('P12', spaces, tier, assumptions=notes)
