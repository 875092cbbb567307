"""P25: machine instructions of library procedures.

Object programs are written word by word: every case sets all registers, the
condition, the last sign, a memory word and the top of the stack, executes one
instruction or a short sequence, and stores everything it can see.  A model of
the order code gives the expected contents."""
from itertools import product
from . import harness as H

W27 = (1 << 27) - 1
SIGN = 1 << 26
START = 10144
LIMIT = 32700
CONSTS = 4000           # constants grow from here
RESULT = 8000           # results
TMP, DUMMY = 3900, 3901
MEM = [3910, 3911, 3912]    # words the instructions work on


def w(op, addr):
    return op << 15 | addr


A_IMM, A_TOP, A_NEG, A_TYPE, A_ST, A_STTOP = 0o0220, 0o0244, 0o0320, 0o0350, 0o0600, 0o0640
S_LD, S_IMM, S_IDX, S_ST, S_EQ, S_AND = 0o1200, 0o1220, 0o1240, 0o1600, 0o3431, 0o3620
B_ADD, B_LD, B_IMM, B_IDX, B_ST = 0o4020, 0o4200, 0o4220, 0o4240, 0o4600
T_SW, T_IMM, T_CNT, ROT, CLR = 0o5100, 0o5220, 0o5404, 0o6714, 0o7700
TOP, ALL = 0o77774, 0o77777
SUPPORTED = {A_IMM, A_TOP, A_NEG, A_TYPE, 0o0400, A_ST, A_STTOP, S_LD, S_IMM, S_IDX, S_ST, S_EQ, S_AND, B_ADD, B_LD, B_IMM, B_IDX, B_ST,
             T_SW, T_IMM, T_CNT, 0o6700, ROT, CLR}

WORDS = [0, 1, 2, 31, 255, 256, 32767, 32768, 1 << 25, SIGN - 1, SIGN, SIGN + 1, W27 - 255, W27 - 1, W27, 0o252525252, 0o525252525, 0o123456701 & W27]
SMALL = [0, 1, 2, 31, 255, 256, 16383, 16384, 32766, 32767]


class State:
    __slots__ = ('A', 'S', 'B', 'C', 'L', 'M', 'top', 'real')

    def copy(self):
        n = State()
        for k in State.__slots__:
            v = getattr(self, k)
            setattr(n, k, list(v) if k == 'M' else v)
        return n


def rot(v, n):
    n %= 27
    return (v >> n | v << (27 - n)) & W27


def clr(v, n):
    n = min(n, 27)
    r = v >> n
    if v & SIGN:
        r |= W27 & ~(W27 >> n)
    return r


# an instruction of a sequence: (operation, operand, condition), condition 0, 2 (Y), 3 (N)
def step(st, ins):
    """the order code; False: outside the model"""
    op, x, c = ins
    if c == 2 and not st.C or c == 3 and st.C:
        return True
    if op == A_IMM:
        st.A = x
    elif op == A_NEG:
        st.A = W27 ^ x
    elif op == A_TOP:
        if st.real:
            return False
        st.A = st.top
        st.L = bool(st.A & SIGN)
        st.C = not st.L
    elif op == A_TYPE:
        st.A = 1 if st.real else 0
        st.C = not st.real
        st.L = False
    elif op == A_ST:
        st.M[x] = st.A
    elif op == A_STTOP:
        if st.real:
            return False
        st.top = st.A
    elif op == S_LD:
        st.S = st.M[x]
    elif op == S_IMM:
        st.S = x
    elif op in (S_IDX, B_IDX):
        k = (x + st.B & 32767) - MEM[0]
        if not 0 <= k < len(MEM) or x == 5:
            return False
        if op == S_IDX:
            st.S = st.M[k]
        else:
            if st.M[k] > 32767:
                return False
            st.B = st.M[k]
    elif op == S_ST:
        st.M[x] = st.S
    elif op == S_EQ:
        st.C = st.S == x
    elif op == S_AND:
        st.S &= x
    elif op == B_ADD:
        if st.B + x > 32767:
            return False
        st.B += x
    elif op == B_LD:
        st.B = st.M[x] & 32767
    elif op == B_IMM:
        st.B = x
    elif op == B_ST:
        st.M[x] = st.B
    elif op == ROT:
        if x >> 5:
            v = st.S = rot(st.S, x & 31)
        else:
            v = st.A = rot(st.A, x & 31)
        s = bool(v & SIGN)
        st.C = s == st.L
        st.L = s
    elif op == CLR:
        if x >> 5:
            st.S = clr(st.S, x & 31)
        else:
            st.A = clr(st.A, x & 31)
    else:
        raise AssertionError(oct(op))
    return True


MEMOP = {A_ST, S_LD, S_ST, B_LD, B_ST}
NAMES = {A_IMM: '2A {} A', A_TOP: '2A top P', A_NEG: '3A {} A', A_TYPE: '3A type Z', A_ST: '6A M{}', A_STTOP: '6A top', S_LD: '2S M{}', S_IMM: '2S {} A', S_IDX: '2S {} B',
         S_ST: '6S M{}', S_EQ: 'U 0LS {} A Z', S_AND: '2LS {} A', B_ADD: '0B {} A', B_LD: '2B M{}', B_IMM: '2B {} A', B_IDX: '2B {} B', B_ST: '6B M{}', ROT: '1P {} E', CLR: '3P {}'}


def text(ins):
    op, x, c = ins
    n = NAMES[op].format(x if op not in (ROT, CLR) else '%d %s' % (x & 31, 'SS' if x >> 5 else 'AA'))
    return {0: '', 2: 'Y ', 3: 'N '}[c] + n


def encode(ins):
    op, x, c = ins
    if op in (A_TOP, A_STTOP):
        x = TOP
    elif op == A_TYPE:
        x = ALL
    elif op in MEMOP:
        x = MEM[x]
    return w(op | c, x)


class Program:
    """collects cases into one object program"""

    def __init__(self):
        self.mem = {}
        self.pool = {}
        self.code = [96]
        self.results = 0

    def const(self, v):
        if v not in self.pool:
            self.pool[v] = CONSTS + len(self.pool)
            self.mem[self.pool[v]] = v
        return self.pool[v]

    def real(self, hi, lo):
        k = ('real', hi, lo)
        if k not in self.pool:
            a = CONSTS + len(self.pool)
            self.pool[k] = a
            self.pool[k, 1] = a + 1
            self.mem[a], self.mem[a + 1] = hi, lo
        return self.pool[k]

    def out(self):
        self.results += 1
        return RESULT + self.results - 1

    def here(self):
        return START + len(self.code)

    def setup(self, st):
        e = self.code.append
        for k, a in enumerate(MEM):
            e(w(S_LD, self.const(st.M[k])))
            e(w(S_ST, a))
        # the cells that the final ST removes
        e(w(B_IMM, DUMMY))
        e(15 if st.real else 17)
        # register A through a cell of its own
        e(w(B_IMM, TMP))
        e(17)
        e(w(B_IMM, self.const(st.A)))
        e(34)
        e(w(A_TOP, TOP))
        e(85)
        if st.real:
            e(w(B_IMM, self.real(0o200000000, 2048 + 5)))
            e(32)
        else:
            e(w(B_IMM, self.const(st.top)))
            e(34)
        # the last sign
        e(w(S_LD, self.const(W27 if st.L else 0)))
        e(w(ROT, 1 << 5))
        # the condition
        e(w(S_IMM, 5))
        e(w(S_EQ, 5 if st.C else 6))
        e(w(S_LD, self.const(st.S)))
        e(w(B_IMM, st.B))

    def observe(self, st):
        """-> expected values"""
        e = self.code.append
        exp = []
        e(w(A_ST, self.out()))
        e(w(S_ST, self.out()))
        e(w(B_ST, self.out()))
        exp += [st.A, st.S, st.B]
        e(w(S_IMM | 2, 1))
        e(w(S_IMM | 3, 0))
        e(w(S_ST, self.out()))
        exp.append(int(st.C))
        # the sign of +0 equals the last sign if that was positive
        e(w(S_IMM, 0))
        e(w(ROT, 1 << 5))
        e(w(S_IMM | 2, 0))
        e(w(S_IMM | 3, 1))
        e(w(S_ST, self.out()))
        exp.append(int(st.L))
        for k, a in enumerate(MEM):
            e(w(S_LD, a))
            e(w(S_ST, self.out()))
            exp.append(st.M[k])
        e(85)
        if not st.real:
            e(w(S_LD, DUMMY))
            e(w(S_ST, self.out()))
            exp.append(st.top)
        return exp

    def finish(self):
        e = self.code.append
        for k in range(self.results):
            e(w(B_IMM, RESULT + k))
            e(34)
            e(103)
            e(105)
        e(97)
        assert START + len(self.code) < LIMIT and RESULT + self.results < START and CONSTS + len(self.pool) < RESULT, (len(self.code), self.results)
        for k, v in enumerate(self.code):
            self.mem[START + k] = v
        return ' 9 29  0\n 9 29  0\n\n' + ''.join('%5d %9d\n' % x for x in sorted(self.mem.items()))


def show(v):
    return '-%d' % (W27 ^ v) if v & SIGN else str(v)


FIELDS = ('A', 'S', 'B', 'condition', 'last sign', 'M0', 'M1', 'M2', 'top of stack', 'counter')
PER = 150


class Base(H.Space):
    """desc: tuple of cases"""

    def cases(self, tier):
        raise NotImplementedError

    def descs(self, tier):
        b = []
        for c in self.cases(tier):
            b.append(c)
            if len(b) == PER:
                yield tuple(b)
                b = []
        if b:
            yield tuple(b)

    def put(self, p, c):
        """emit the instructions of c; -> expected values"""
        st, seq = c
        p.setup(st)
        n = st.copy()
        for i in seq:
            p.code.append(encode(i))
            if not step(n, i):
                raise AssertionError
        return p.observe(n)

    def title(self, c):
        st, seq = c
        return '%s with A=%o S=%o B=%o C=%d L=%d M=%s top=%s' % ('; '.join(text(i) for i in seq), st.A, st.S, st.B, st.C, st.L, ','.join('%o' % m for m in st.M),
                                                               'real' if st.real else '%o' % st.top)

    def case(self, desc):
        p = Program()
        exp = [self.put(p, c) for c in desc]
        src = p.finish()

        def judge(obs):
            o = obs[0]
            got = o.out.decode('utf-8', 'replace').split('\n')[:-1]
            if o.status:
                return 'stopped', {'status': 0, 'first': self.title(desc[0])}
            k = 0
            for c, ex in zip(desc, exp):
                for f, v in zip(FIELDS, ex):
                    g = got[k] if k < len(got) else None
                    k += 1
                    if g != show(v):
                        return 'wrong %s' % f, {'case': self.title(c), f: show(v), 'observed': g}
            return None
        return H.Case('%s ... %s' % (self.title(desc[0]), self.title(desc[-1])), [H.Req(['x1sim', 'p.x1'], [('p.x1', src)])], judge, src, len(desc), sum(len(c[1]) if isinstance(c[1], tuple) else 1 for c in desc))


def state(A=0o1234567, S=0o7654321, B=77, C=False, L=False, M=(0o11, 0o2222, 0o33333), top=0o4444, real=False):
    st = State()
    st.A, st.S, st.B, st.C, st.L, st.M, st.top, st.real = A, S, B, C, L, list(M), top, real
    return st


class Single(Base):
    name = 'one instruction'
    rule = 'every supported instruction, unconditional, Y and N, x condition x last sign x operands 0 to 32767 (boundaries; thorough: all that matter) x register contents of 18 patterns'

    def cases(self, tier):
        n15 = SMALL if tier == 'quick' else sorted(set(SMALL) | {1 << k for k in range(15)} | {(1 << k) - 1 for k in range(15)} | {32767 ^ 1 << k for k in range(15)})
        for c in (0, 2, 3):
            for C in (False, True):
                for L in (False, True):
                    for op in (A_IMM, A_NEG, S_IMM, B_IMM, B_ADD):
                        for x in n15:
                            for B in ((0, 1, 77, 16000) if op == B_ADD else (77,)):
                                if B + x <= 32767 or op != B_ADD:
                                    yield state(C=C, L=L, B=B), ((op, x, c),)
                    for v in WORDS:
                        yield state(C=C, L=L, top=v), ((A_TOP, 0, c),)
                        yield state(C=C, L=L, A=v), ((A_STTOP, 0, c),)
                        for k in range(3):
                            m = [7, 8, 9]
                            m[k] = v
                            yield state(C=C, L=L, A=v), ((A_ST, k, c),)
                            yield state(C=C, L=L, S=v), ((S_ST, k, c),)
                            yield state(C=C, L=L, M=m), ((S_LD, k, c),)
                            yield state(C=C, L=L, M=m), ((B_LD, k, c),)
                            if v < 32768:
                                yield state(C=C, L=L, B=v), ((B_ST, k, c),)
                            for B in (0, 1, MEM[k], 32767 - 2, 32767):
                                yield state(C=C, L=L, M=m, B=B), ((S_IDX, MEM[k] - B & 32767, c),)
                                if v < 32768:
                                    yield state(C=C, L=L, M=m, B=B), ((B_IDX, MEM[k] - B & 32767, c),)
                        for x in n15:
                            yield state(C=C, L=L, S=v), ((S_AND, x, c),)
                            if c == 0:
                                yield state(C=C, L=L, S=v), ((S_EQ, x, c),)
                    if c == 0:
                        for x in n15:
                            for d in (0, 1 << 15, SIGN, W27 ^ 32767):
                                yield state(C=C, L=L, S=x | d), ((S_EQ, x, c),)
                    for r in (False, True):
                        yield state(C=C, L=L, real=r), ((A_TYPE, 0, c),)
                        for v in (0, 1, W27, SIGN, W27 - 1):
                            yield state(C=C, L=L, real=r, top=v, A=v), ((A_TYPE, 0, c),)


class Shifts(Base):
    name = 'shifts'
    rule = 'round and clear shifts of A and S over 0 to 26 places x patterns (18, thorough: all words with one or two ones, or one or two zeros) x last sign x condition x Y, N'

    def cases(self, tier):
        pats = WORDS
        if tier != 'quick':
            pats = sorted(set(pats) | {1 << i | 1 << j for i in range(27) for j in range(i + 1)} | {W27 ^ (1 << i | 1 << j) for i in range(27) for j in range(i + 1)})
        for v in pats:
            for n in range(27):
                for op in (ROT, CLR):
                    for reg in (0, 32):
                        for L in (False, True):
                            for C, c in ((False, 0), (True, 2), (False, 3)) if n % 9 or tier == 'quick' else product((False, True), (0, 2, 3)):
                                if tier == 'quick' and c and n not in (0, 1, 8, 26):
                                    continue
                                yield state(A=v if not reg else 0o555, S=v if reg else 0o666, C=C, L=L), ((op, n | reg, c),)


def instances(tier):
    x = []
    cs = (0, 2, 3)
    for c in cs:
        x += [(A_IMM, 0, c), (A_IMM, 32767, c), (A_NEG, 0, c), (A_NEG, 1, c), (A_TOP, 0, c), (A_STTOP, 0, c), (A_ST, 0, c), (A_ST, 1, c), (S_LD, 0, c), (S_LD, 1, c),
              (S_IMM, 6, c), (S_IDX, MEM[0], c), (S_IDX, MEM[1], c), (S_ST, 0, c), (S_AND, 255, c), (B_ADD, 1, c), (B_LD, 0, c), (B_IMM, 1, c), (B_IMM, 0, c), (B_IDX, MEM[0], c), (B_ST, 0, c),
              (ROT, 1, c), (ROT, 32 | 8, c), (CLR, 3, c), (CLR, 32 | 8, c), (A_TYPE, 0, c)]
    x += [(S_EQ, 6, 0), (S_EQ, 255, 0)]
    return x


STATES = [state(A=W27 - 5, S=6, B=1, C=False, L=True, M=(SIGN | 3, 2, 6), top=9), state(A=SIGN - 1, S=SIGN | 255, B=0, C=True, L=False, M=(255, W27, 1), top=SIGN | 1),
          state(A=0, S=0, B=2, C=True, L=True, M=(6, 255, 32767), top=W27)]


class Sequences(Base):
    name = 'sequences of instructions'
    rule = 'all pairs and all triples (quick: of the 54 not conditional on N, from 1 state) of 80 instructions, from 3 states: effects, conditions and values carried between them'

    def cases(self, tier):
        ins = instances(tier)
        for st in STATES:
            for s in product(ins, repeat=2):
                if self.inside(st, s):
                    yield st, s
        if tier == 'quick':
            ins = [i for i in ins if i[2] != 3]
        for st in STATES if tier != 'quick' else STATES[1:2]:
            for s in product(ins, repeat=3):
                if self.inside(st, s):
                    yield st, s

    def inside(self, st, s):
        n = st.copy()
        return all(step(n, i) for i in s)


class Jumps(Base):
    name = 'jumps'
    rule = 'jumps forwards and backwards, unconditional, Y and N, in both conditions; counting jumps for 18 counts; loops of 0 to 300 rounds; jumps through tables of up to 40 entries at every index'

    def cases(self, tier):
        for c in (0, 2, 3):
            for C in (False, True):
                for d in range(0, 12):
                    for back in (False, True):
                        yield ('jump', c, C, d, back)
        for v in [v for v in WORDS if v != SIGN] + [3, 4, W27 - 2, SIGN + 2]:     # SIGN - 1 overflows
            for C in (False, True):
                for L in (False, True):
                    for c in (0, 2, 3):
                        yield ('count', v, C, L, c)
        for n in list(range(0, 20)) + [63, 64, 300]:
            yield ('loop', n)
        for n in range(1, 41) if tier != 'quick' else (1, 2, 3, 7, 40):
            for k in range(1, n + 1):
                yield ('table', n, k)

    def title(self, c):
        return ' '.join(map(str, c))

    def put(self, p, c):
        e = p.code.append
        if c[0] == 'jump':
            _, cc, C, d, back = c
            st = state(C=C, A=3)
            taken = cc == 0 or (cc == 2) == C
            p.setup(st)
            if not back:
                e(w(T_IMM | cc, p.here() + 1 + d))
                for k in range(d):
                    e(w(B_ADD, 1 << k if k < 12 else 0))
                n = st.copy()
                n.B += 0 if taken else (1 << d) - 1
                return p.observe(n)
            # jump over the target; from behind it back to it; leave
            e(w(T_IMM, p.here() + 3 + d))
            t = p.here()
            e(w(A_IMM, 4000 + d))
            over = p.here()
            e(0)
            for k in range(d):
                e(w(B_ADD, 1000))
            e(w(T_IMM | cc, t))
            e(w(S_IMM, 99))
            p.code[over - START] = w(T_IMM, p.here())
            n = st.copy()
            if taken:
                n.A = 4000 + d
            else:
                n.S = 99
            return p.observe(n)
        if c[0] == 'count':
            _, v, C, L, cc = c
            st = state(C=C, L=L)
            # the counter lives in M[0]
            e(w(S_LD, p.const(v)))
            e(w(S_ST, 0))
            p.setup(st)
            n = st.copy()
            e(w(T_CNT | cc, p.here() + 2))
            e(w(A_IMM, 1))
            act = cc == 0 or (cc == 2) == C
            r = v
            if act:
                r = v - 1
                if v == 0:
                    r = W27 - 1
                elif v == 1:
                    r = W27             # 1 - 1 is minus zero
                elif v == W27:
                    r = W27 - 1
            if not act or not (0 < r < SIGN):
                n.A = 1
            ex = p.observe(n)
            e(w(S_LD, 0))
            e(w(S_ST, p.out()))
            return ex + [r]
        if c[0] == 'loop':
            n = state()
            e(w(S_LD, p.const(c[1])))
            e(w(S_ST, 0))
            p.setup(n)
            e(w(B_ADD, 1))
            e(w(T_CNT, p.here() - 1))
            n = n.copy()
            n.B += max(1, c[1])
            return p.observe(n)
        _, n, k = c
        st = state()
        e(w(S_IMM, k))
        e(w(S_ST, 0o60))
        p.setup(st)
        base = p.here()
        e(w(T_IMM, base + 1 + n))
        for i in range(n, 0, -1):
            e(w(T_IMM, base + 2 + n + 2 * (i - 1)))
        e(w(T_SW, 0o60))
        end = base + 2 + n + 2 * n
        for i in range(1, n + 1):
            e(w(A_IMM, 500 + i))
            e(w(T_IMM, end))
        st = st.copy()
        st.A = 500 + k
        return p.observe(st)

    def descs(self, tier):
        # tables are long: fewer per program
        b = []
        for d in self.cases(tier):
            b.append(d)
            if len(b) >= (60 if d[0] == 'table' else 120):
                yield tuple(b)
                b = []
        if b:
            yield tuple(b)


class Unsupported(H.Space):
    name = 'unsupported instructions'
    rule = 'all 4096 operations that are not supported x addresses x both conditions: error if executed, no effect if the condition excludes them; forbidden operands of supported ones'

    def descs(self, tier):
        addrs = (5, 0o77777) if tier == 'quick' else (0, 1, 5, 0o61, 0o100, 0o10000, 0o40000, 0o77774, 0o77777)
        for op in range(1, 4096):
            base = op & ~3 if op & 3 in (2, 3) else op
            if base == 0 or base in SUPPORTED:
                continue
            for a in addrs:
                for C in (False, True):
                    if op & 3 in (2, 3) or a == addrs[0]:
                        yield (op, a, C)
        for op, ok in ((A_TOP, {TOP}), (A_TYPE, {ALL}), (A_STTOP, {TOP}), (0o0400, {0o61, 0o62}), (0o6700, set())):
            for a in (0, 1, 5, 0o60, 0o61, 0o62, 0o63, 0o3777, 0o37777, 0o40000, 0o40001, 0o77770, 0o77773, 0o77774, 0o77775, 0o77776, 0o77777):
                if a not in ok:
                    for c in (0, 2, 3):
                        for C in (False, True):
                            yield (op | c, a, C)
        for op in (ROT, CLR):
            for a in range(64, 1 << 15) if tier != 'quick' else list(range(64, 200)) + [256, 512, 1024, 16384, 32767]:
                yield (op, a, True)
        for opc in range(128, 32768) if tier != 'quick' else list(range(128, 300)) + [511, 512, 1023, 1024, 16384, 32767]:
            yield (0, opc, True)

    def case(self, desc):
        op, a, C = desc
        p = Program()
        st = state(C=C)
        p.setup(st)
        p.code.append(w(op, a))
        exp = p.observe(st)
        src = p.finish()
        c = op & 3
        skipped = c == 2 and not C or c == 3 and C

        def judge(obs):
            o = obs[0]
            if skipped:
                if o.status or o.out.decode('utf-8', 'replace').split('\n')[:-1] != [show(v) for v in exp]:
                    return 'a skipped instruction had an effect', {'status': 0}
            elif o.status != 1 or b'Error' not in o.err or o.out:
                return 'an unsupported instruction was executed', {'status': 1}
            return None
        return H.Case('unsupported %04o %05o %d' % desc, [H.Req(['x1sim', 'p.x1'], [('p.x1', src)])], judge, src)


def main(tier):
    return H.check('P25', [Single(), Shifts(), Sequences(), Jumps(), Unsupported()], tier)
