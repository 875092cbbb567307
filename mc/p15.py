"""P15: the object library format reproduces every instruction."""
import os, re
from itertools import product
from . import harness as H

# procedures that come from a library file: name in Algol, number, length reserved for them
PROCS = [('SUM', 0, 54), ('RESYM', 7, 7), ('PRSYM', 8, 8), ('RANDOM', 17, 7), ('SETRANDOM', 18, 8)]
NUM = {n: (k, l) for n, k, l in PROCS}
BYNUM = {k: n for n, k, l in PROCS}
USE = {'SUM': 'x := SUM(i, 1, 2, i)', 'RESYM': 'i := RESYM', 'PRSYM': 'PRSYM(i)', 'RANDOM': 'x := RANDOM', 'SETRANDOM': 'SETRANDOM(x)',
       'EVEN': 'i := EVEN(i)', 'PRINTTEXT': "PRINTTEXT(`a')", 'TIMEOFDAY': 'x := TIMEOFDAY'}


def prog(names, size=0):
    return '_b_e_g_i_n _i_n_t_e_g_e_r i; _r_e_a_l x;\n' + ''.join('i := %d;\n' % (k % 5 + 1000) for k in range(size)) \
        + ';\n'.join(USE[n] for n in names) + '\n_e_n_d\n'


def listing(out):
    """address -> word of the object program"""
    m = {}
    t = out.decode('utf-8', 'replace')
    for l in t.split('\n'):
        f = l.split()
        if len(f) == 2 and f[0].isdigit() and f[1].lstrip('-').isdigit():
            m[int(f[0])] = int(f[1])
    return m


def value(item, base, where):
    """the machine word meant by a line of the notation, or None"""
    opc, w = item
    if opc >= 8:
        return opc
    if opc == 0:
        return w
    if opc == 1:
        return w + base
    if opc == 3:        # reference to another procedure of the library
        return w - (w & 32767) + where[w & 32767]
    raise ValueError


def place(m, items, where=None, lo=0):
    """addresses at which the words stand"""
    r = []
    for b in m:
        for i, it in enumerate(items):
            v = m.get(b + i)
            if v is None:
                break
            if it[0] == 3:
                if where is None:
                    continue
                if v != value(it, b, where):
                    break
            elif v != value(it, b, where):
                break
        else:
            r.append(b)
    return r


def source(items):
    s = []
    for k, (opc, w) in enumerate(items):
        s.append('%d %d' % (k, opc) if opc >= 8 else '%d %d %d' % (k, opc, w))
    return '\n'.join(s) + '\n'


def judge_words(procs):
    """procs: {number: items}"""
    def judge(obs):
        o = obs[0]
        if o.status != 0:
            return 'the tape made by objfile is not accepted by the compiler', {'status': 0}
        m = listing(o.out)
        if not m:
            return 'no object program', {}
        where = {}
        for n, items in procs.items():
            p = place(m, items)
            if not p:
                return 'the words of procedure %d are not in the object program' % n, \
                    {'words': [[a, b] for a, b in items][:60]}
            where[n] = p
        for n, items in procs.items():
            refs = {w & 32767 for opc, w in items if opc == 3}
            if refs:
                for combo in product(*[where.get(r, []) for r in refs]):
                    if place(m, items, dict(zip(refs, combo))):
                        break
                else:
                    return 'references of procedure %d to other procedures are wrong' % n, {'words': [list(i) for i in items]}
        return None
    return judge


def words_case(space, key, procs, size=0, pre='', sep='', lib=None):
    names = [BYNUM[n] for n in procs]
    files = [('p.a60', prog(names, size))]
    cmd = []
    for n, items in procs.items():
        files.append(('%d.src' % n, pre + source(items)))
        cmd.append('objfile %d < %d.src' % (n, n))
    sh = '{ %s; } > l.lib 2>/dev/null; exec x1algc p.a60 l.lib' % '; '.join(cmd)
    r = H.Req(['sh', '-c', sh], files)
    n = sum(len(i) for i in procs.values())
    return H.Case('%s:%s' % (space.name, key), [r], judge_words(procs), '\n'.join(f[1] for f in files[1:]), n + 1, n)


def fill(items, sizes=PROCS):
    """distributes a list of items over procedures; returns list of {number: items}"""
    out = []
    k = 0
    while k < len(items):
        d = {}
        for _, n, l in sizes:
            part = items[k:k + l]
            if part:
                d[n] = part
            k += l
        out.append(d)
    return out


class Blocks(H.Space):
    def blocks(self, tier):
        """yields (key, items)"""
        raise NotImplementedError

    def descs(self, tier):
        cap = sum(l for _, _, l in PROCS)
        for key, items in self.blocks(tier):
            for k in range(0, len(items), cap):
                yield key, k, items[k:k + cap]

    def case(self, d):
        key, k, items = d
        return words_case(self, '%s+%d' % (key, k), fill(items)[0])


FUN = range(4096)
ALLADDR = [a << 10 | b << 5 | c for a in (0, 1, 31) for b in (0, 1, 2, 3, 4, 5, 31) for c in (0, 1, 2, 3, 31)]
QADDR = [0, 1, 2, 3, 4, 32, 65, 129, 161, 1024, 1090, 32767, 0o77771]


class Functions(Blocks):
    name = 'functions'
    rule = 'all 4096 combinations of function, address modification, condition setting and reaction x static and relative x addresses of every class of the address code (quick: 13, thorough: all 105)'

    def blocks(self, tier):
        al = QADDR if tier == 'quick' else ALLADDR
        for a in al:
            yield 'static %d' % a, [(0, f << 15 | a) for f in FUN]
        for a in ((0, 1, 2, 3, 33, 65, 161) if tier == 'quick' else range(0, 200)):
            yield 'relative %d' % a, [(1, f << 15 | a) for f in FUN if f < 4095]


class Addresses(Blocks):
    name = 'addresses'
    rule = 'all 32768 addresses x function parts with short and long codes'

    def blocks(self, tier):
        fs = [0o0000, 0o4220, 0o0033] if tier == 'quick' else [0, 0o4220, 0o1220, 0o0220, 0o0020, 0o0223, 0o0623, 0o0400, 0o0033, 0o1111, 0o7777]
        for f in fs:
            yield 'f=%o' % f, [(0, f << 15 | a) for a in range(32768)]
            yield 'rel f=%o' % f, [(1, f << 15 | a) for a in range(20000)]


# one word of every length and kind of code
SHORT = [0o0122000000, 0o0422000000, 0o0022000000, 0, 0o0422000000 + 32767, 0o0022200000, 0o0040000000, 0o0020600000 | 1,
         0o0062200001, 0o0002000000, 0o0002000003, 0o0122000341, 0o0022000002]
REPS = [(o, 0) for o in range(8, 113)] + [(0, w) for w in SHORT + [1, 2, 3, 4, 0o37, 0o40, 0o77777, 0o777777777, 0o524252525 & 0o777777777, 0o252525252]] \
    + [(1, w) for w in (0o0422000000, 0o0522000000, 0o0522200001, 0o0002000002, 0o0002000003, 0o1, 0o0420000053, 0o0522300005)] \
    + [(3, w) for w in (0o0422000000, 0o0002000007, 0o0522300000 | 7, 0o0520000000 | 8, 0o0420000000 | 17, 18)]
FEW = [(33, 0), (34, 0), (16, 0), (85, 0), (9, 0), (19, 0), (61, 0), (12, 0), (112, 0), (0, 0o0122000000), (0, 0o0422000003), (0, 0o0022000001), (0, 0),
       (0, 0o0040000061), (0, 0o0422077771), (0, 0o0777777777), (0, 1), (0, 0o0402000042), (1, 0o0422000002), (1, 0o0522000005), (1, 0o0522300057),
       (0, 0o0123456701)]


def rel(items):
    """relative references stay inside the procedure"""
    return items


class Pairs(Blocks):
    name = 'pairs'
    rule = 'all ordered pairs of every run-time operation and a word of every length and kind of code'

    def blocks(self, tier):
        reps = [r for r in REPS if r[0] != 3]
        for a in reps:
            yield 'pairs %r' % (a,), [x for b in reps for x in (a, b)]


class Triples(Blocks):
    name = 'triples'
    rule = 'all ordered triples (thorough: quadruples) of words with every length of code'

    def blocks(self, tier):
        for a in FEW:
            for b in FEW:
                if tier == 'quick':
                    yield 'triples %r %r' % (a, b), [x for c in FEW for x in (a, b, c)]
                else:
                    yield 'quads %r %r' % (a, b), [x for c in FEW for d in FEW for x in (a, b, c, d)]


class Align(Blocks):
    name = 'alignment'
    rule = 'every code after 0-27 bits of displacement (sequences of codes of 4, 5, 6, 7 and 10 bits)'

    def case(self, d):
        key, _, items = d
        return words_case(self, key, {0: items})

    def descs(self, tier):
        pre = {}
        for n4 in range(0, 8):
            for n5 in range(0, 4):
                pre.setdefault((n4 * 4 + n5 * 5) % 27, [(33, 0)] * n4 + [(16, 0)] * n5)
        for b in sorted(pre):
            p = pre[b]
            for r in REPS:
                if r[0] == 3:
                    continue
                yield 'bit %d %r' % (b, r), 0, p + [r, (12, 0)]
                yield 'bit %d end %r' % (b, r), 0, [(12, 0)] + p + [r]


class Sizes(H.Space):
    name = 'lengths and places'
    rule = 'procedures of every length 1-54 loaded at every place (program sizes 0-120, steps to 1500 statements), with references between procedures'

    def descs(self, tier):
        for n in range(1, 55):
            for k in range(6):
                yield 'len', n, k
        for s in list(range(0, 121)) + list(range(125, 1500, 25)):
            for k in (0, 3):
                yield 'size', s, k
        for order in range(24):
            yield 'refs', order, 0

    def case(self, d):
        kind, n, k = d
        if kind == 'len':
            kinds = [[(33, 0)], [(112, 0)], [(0, 0o777777777)], [(1, 0o522000001)], [(0, 0)], FEW]
            items = (kinds[k] * 60)[:n]
            return words_case(self, repr(d), {0: items}, 3 * n % 32)
        if kind == 'size':
            return words_case(self, repr(d), {7: FEW[18:21] + FEW[k:k + 4], 0: (FEW * 3)[k:k + 54]}, n)
        from itertools import permutations
        order = list(permutations((0, 7, 8, 17)))[n]
        procs = {}
        for i, p in enumerate(order):
            procs[p] = [(3, 0o522000000 | q) for q in order if q != p] + [(3, 0o420000000 | p), (1, 0o522000000)]
        return words_case(self, repr(d), procs, n)


class Notation(H.Space):
    name = 'notation'
    rule = 'layout, radix and comment variants of the notation, each refused form, output to a file argument and in words'

    BAD = [('gap', '0 12\n2 12\n'), ('start', '1 12\n'), ('repeat', '0 12\n0 12\n'), ('back', '0 12\n1 12\n0 12\n'), ('no opc', '0 12\n1\n'),
           ('no opc, text', '0 12\n1 RET\n'), ('no word', '0 12\n1 0\n'), ('no word, text', '0 12\n1 0 2B 0 A\n'.replace('2B', 'B')), ('no word 1', '0 1\n'),
           ('no word 3', '0 12\n1 3 A\n')]

    def descs(self, tier):
        for k in range(len(self.BAD)):
            yield 'bad', k
        for k in range(12):
            yield 'form', k
        for k in range(9):
            yield 'radix', k

    def case(self, d):
        kind, k = d
        items = [(0, 0o0422000001), (89, 0), (1, 0o0422000005), (0, 9), (0, 0o777777777), (12, 0), (0, 0)]
        if kind == 'bad':
            r = H.Req(['objfile', '0', 'a.src'], [('a.src', self.BAD[k][1])])

            def judge(obs):
                o = obs[0]
                if o.status != 1 or not (o.out + o.err).strip():
                    return 'malformed source must be refused', {'status': 1}
                return None
            return H.Case('notation:%s' % self.BAD[k][0], [r], judge, self.BAD[k][1])
        n = len(items)
        oct_ = lambda v: '0%o' % v
        fo = [str, oct_, hex, lambda v: '0x%X' % v]
        L = []
        for i, (o, w) in enumerate(items):
            if kind == 'radix':
                a, b = fo[k % 3](i), fo[k // 3](w)
            else:
                a, b = str(i), str(w)
            L.append([a, str(o)] + ([b] if o < 8 else []))
        sep, pre, post, end, com = ' ', '', '', '\n', []
        if kind == 'form':
            sep = [' ', '\t', '   ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' '][k]
            pre = ['', '', '', '\t', '    ', '', '', '', '', '', '', ''][k]
            post = ['', '', '', '', '', ' 2B 000001 A', '\t<-- 18', '  ', ' X5 B', '', '', ''][k]
            com = [[], [], [], [], [], [], [], [], [], ['Format:', 'offset OPC word'], ['', ' ', '\t'], ['# 0 12', 'x 1 12']][k]
        t = ''
        for i, l in enumerate(L):
            for c in com:
                t += c + '\n'
            t += pre + sep.join(l) + post + end
        if kind == 'form' and k in (0, 9):
            t = t[:-1]
        files = [('p.a60', prog(['SUM'])), ('a.src', t)]
        sh = ['objfile 0 a.src >l.lib 2>/dev/null', 'objfile 0 <a.src >l.lib 2>/dev/null'][k % 2]
        r = H.Req(['sh', '-c', sh + '; exec x1algc p.a60 l.lib'], files)
        return H.Case('notation:%s %d' % d, [r], judge_words({0: items}), t, n, n)


SRC = {'sum': ('SUM', 0), 'resym': ('RESYM', 7), 'prsym': ('PRSYM', 8), 'random': ('RANDOM', 17), 'setrandom': ('SETRANDOM', 18),
       'even': ('EVEN', 2), 'printtext': ('PRINTTEXT', 1), 'timeofday': ('TIMEOFDAY', 77)}


# ------------------------------------------------------------ reference decoder of the tape
OPCS = [33, 34, 16, 56, 58, 85, 9, 14, 18, 30, 13, 17, 19, 20, 31, 35, 39, 61, 8, 10, 11, 12, 15] + list(range(21, 30)) \
    + [32, 36, 37, 38] + list(range(40, 56)) + [57, 59, 60] + list(range(62, 113))
MASKS = [(0, '2S 0 A'), (3, '2B 0 A'), (2, '2T 0 X0'), (0, '2B 0 A'), (0, '2A 0 A'), (2, '2B 0 X0'), (1, '2T 0 A'), (0, '0A 0 X0'), (3, '0A 0 A'),
         (2, 'N 2T 0 X0'), (1, '2B 0 A'), (1, '0A 0 X0 B'), (2, '2S 0 X0'), (0, 'Y 2A 0 A'), (0, '4A 0 X0'), (0, 'Y 2A 0 X0 P'), (0, 'Y 6A 0 A'),
         (1, '0A 0 X0 C'), (0, '0A 0 A')]


def order(t):
    """function part of an order"""
    f = t.split()
    v = 0
    if f[0] in 'UYN':
        v |= {'U': 1, 'Y': 2, 'N': 3}[f.pop(0)]
    v |= (int(f[0][0]) | {'A': 0, 'S': 8, 'B': 32, 'T': 40}[f[0][1]]) << 6
    for x in f[2:]:
        v |= {'A': 1 << 4, 'B': 2 << 4, 'C': 3 << 4, 'X0': 0, 'P': 1 << 2}[x]
    return v


class Tape:
    def __init__(self, bits):
        self.b = bits
        self.p = 0

    def get(self, n):
        v = 0
        for _ in range(n):
            v = v * 2 + (self.b[self.p] if self.p < len(self.b) else 0)
            self.p += 1
        return v

    def peek(self, n):
        p = self.p
        v = self.get(n)
        self.p = p
        return v

    def group(self, short):
        """a group of five bits: 1xxxxx or one of the short codes"""
        if self.peek(1):
            self.get(1)
            return self.get(5)
        for code, v in short.items():
            if self.peek(len(code)) == int(code, 2):
                self.get(len(code))
                return v
        raise ValueError

    def addr(self):
        a = self.group({'0': 0})
        b = self.group({'00': 0, '0100': 1, '0101': 2, '0110': 4, '0111': 5})
        c = self.group({'00': 1, '010': 2, '011': 3})
        return a << 10 | b << 5 | c

    def word(self):
        if not self.get(1):
            if not self.peek(2) >> 1:
                if not self.peek(2):
                    self.get(2)
                    return OPCS[self.get(1)], 0
                self.get(2)
                return OPCS[2 + self.get(2)], 0
            self.get(1)
            if not self.get(1):
                if not self.get(1):
                    return OPCS[6 + self.get(2)], 0
                return OPCS[10 + self.get(3)], 0
            return OPCS[self.get(7) + 384 - 366], 0
        if not self.peek(1):
            m = self.get(2)
        elif self.peek(2) == 2:
            m = self.get(3) - 2
        else:
            m = self.get(6) - 44
        if m < 19:
            t, o = MASKS[m]
            f = order(o)
        else:
            v = self.addr()
            t, f = v >> 12, v & 4095
        return t, f << 15 | self.addr()


def decode(bits):
    """-> (number, items)"""
    t = Tape(bits)
    while not t.get(1):
        if t.p > len(bits):
            raise ValueError
    n = t.get(13)
    num = t.get(13)
    items = [t.word() for _ in range(n)][::-1]
    if t.get(6) != 63:
        raise ValueError
    return num, items


def bits_of_tape(text):
    v = [int(x) for x in text.split()]
    while v and v[0] == 0:
        v.pop(0)
    if not v or v.pop(0) != 30:
        raise ValueError
    r = []
    for i in range(0, len(v), 4):
        if i + 4 > len(v):
            break
        par = sum(bin(x).count('1') for x in v[i:i + 4]) & 1
        if not par and any(v[i:i + 4]):
            raise ValueError('parity')
        r += [(v[i] >> k) & 1 for k in range(6, 0, -1)]
        for x in v[i + 1:i + 4]:
            r += [(x >> k) & 1 for k in range(6, -1, -1)]
    return r


def bits_of_words(text):
    v = [int(m.group(2), 8) for m in re.finditer(r'store\[mcpb \+ (\d+)\] = ([0-7]+);', text)]
    r = []
    for x in v[::-1]:
        r += [(x >> k) & 1 for k in range(26, -1, -1)]
    return r


def judge_decode(num, items, words=False):
    def judge(obs):
        o = obs[0]
        exp = {'number': num, 'words': [list(i) for i in items]}
        if o.status != 0:
            return 'objfile failed', exp
        try:
            got = decode((bits_of_words if words else bits_of_tape)(o.out.decode()))
        except (ValueError, IndexError, TypeError):
            return 'not a tape', exp
        if got != (num, [tuple(i) for i in items]):
            return 'the tape means something else', dict(exp, got=got)
        return None
    return judge


def parse_src(text):
    items = []
    for l in text.split('\n'):
        m = re.match(r'\s*(0[xX][0-9a-fA-F]+|\d+)\s+(\d+)(?:\s+(0[xX][0-9a-fA-F]+|\d+))?', l)
        if not m:
            continue
        o = int(m.group(2))
        w = m.group(3)
        if o < 8:
            items.append((o, int(w, 16) if w[:2] in ('0x', '0X') else int(w, 8) if w[0] == '0' else int(w)))
        else:
            items.append((o, 0))
    return items


class Committed(H.Space):
    name = 'committed tapes'
    rule = 'every committed .src x {committed .lib, committed x1algol.lib or the tape built into the compiler, freshly made tape}'

    def descs(self, tier):
        for s in SRC:
            for how in ('lib', 'default', 'fresh', 'words', 'tape'):
                yield s, how

    def case(self, d):
        s, how = d
        repo = H.B.REPO
        name, num = SRC[s]
        src = open(os.path.join(repo, 'library', s + '.src')).read()
        items = parse_src(src)
        files = [('p.a60', prog([name]))]
        builtin = name in ('EVEN', 'PRINTTEXT', 'TIMEOFDAY')
        if how == 'default':
            sh = 'exec x1algc p.a60 $X1ALGOL_LIB'
        elif how == 'fresh':
            files.append(('a.src', src))
            sh = 'objfile %d a.src >l.lib 2>/dev/null; exec x1algc p.a60 l.lib' % num
            if builtin:         # a fresh tape under the number of a procedure that is loaded from a file
                if len(items) > 54:
                    return None
                files[0] = ('p.a60', prog(['SUM']))
                sh = 'objfile 0 a.src >l.lib 2>/dev/null; exec x1algc p.a60 l.lib'
        elif how in ('words', 'tape'):
            r = H.Req(['objfile'] + (['-w'] if how == 'words' else []) + [str(num), 'a.src'], [('a.src', src)])
            return H.Case('committed:%s %s' % d, [r], judge_decode(num, items, how == 'words'), src, len(items), len(items))
        else:
            p = os.path.join(repo, 'library', s + '.lib')
            if not os.path.exists(p):
                return None
            files.append(('l.lib', open(p).read()))
            sh = 'exec x1algc p.a60 l.lib'
            if builtin:         # these tapes are not read by the compiler
                r = H.Req(['cat', 'l.lib'], files)
                return H.Case('committed:%s %s' % d, [r], judge_decode(num, items), src, len(items), len(items))
        r = H.Req(['sh', '-c', sh], files)
        return H.Case('committed:%s %s' % d, [r], judge_words({num: items}), src, len(items), len(items))


SPACES = [Functions(), Addresses(), Pairs(), Triples(), Align(), Sizes(), Notation(), Committed()]


def main(tier):
    return H.check('P15', SPACES, tier, assumptions=[
        'addresses of relative words stay below 2^15 after relocation',
        'procedures no longer than the space the compiler reserves for their number'])
