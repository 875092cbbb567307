"""P16: library tapes are selected by need, in any order, and checked."""
import os, re
from itertools import product, permutations, combinations
from . import harness as H
from .p15 import PROCS, NUM, BYNUM, prog, listing, source

LIBS = ['SUM', 'RESYM', 'PRSYM', 'RANDOM', 'SETRANDOM']
BUILTIN = ['EVEN', 'PRINTTEXT', 'TIMEOFDAY']
# what each procedure does in the test program
STAT = {'SUM': 'print(SUM(i, 1, 4, i × i))', 'RESYM': 'i := RESYM; print(i)', 'PRSYM': 'PRSYM(18)', 'RANDOM': 'print(RANDOM ≥ 0)',
        'SETRANDOM': 'SETRANDOM(x)', 'EVEN': 'print(EVEN(3))', 'PRINTTEXT': 'PRINTTEXT(`a b\')', 'TIMEOFDAY': 'x := TIMEOFDAY'}
OUT = {'SUM': '30', 'RESYM': '20', 'PRSYM': 'i', 'RANDOM': None, 'SETRANDOM': '', 'EVEN': '-1', 'PRINTTEXT': 'a b', 'TIMEOFDAY': ''}


def text(names):
    return '_b_e_g_i_n _i_n_t_e_g_e_r i; _r_e_a_l x; x := 0.5; i := 7;\n' + ';\nNLCR;\n'.join(STAT[n] for n in names) + '\n_e_n_d\n'


def tape(name):
    with open(os.path.join(H.B.REPO, 'library', name.lower() + '.lib')) as f:
        return f.read()


def objfile(num, items):
    import subprocess
    p = subprocess.run([os.path.join(H.BUILD, 'objfile'), str(num)], input=source(items).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.stdout.decode()


_cache = {}


def foreign(num, items):
    k = (num, tuple(items))
    if k not in _cache:
        _cache[k] = objfile(num, items)
    return _cache[k]


def req(names, libs, env=()):
    files = [('p.a60', text(names))] + [('l%d.lib' % k, t) for k, t in enumerate(libs)]
    return H.Req(['x1sim', 'p.a60'] + ['l%d.lib' % k for k in range(len(libs))], files, b'k', env=env, want=['p.x1'])


def same(o, e):
    """the two runs behave alike and made the same object program"""
    if (o.status, o.out) != (e.status, e.out):
        return False
    return listing(o.files['p.x1'] or b'') == listing(e.files['p.x1'] or b'')


def judge_same(names):
    exp = [OUT[n] for n in names]

    def judge(obs):
        o, e = obs
        if e.status == 0 and None not in exp and e.out.decode() != '\n'.join(exp):
            return 'the reference run is wrong', {'stdout': '\n'.join(exp)}
        if e.status != 0:
            return 'the program does not run with a tape of the procedures it needs', {'status': 0}
        if not same(o, e):
            return 'the result depends on the tapes', {'status': e.status, 'stdout': e.out.decode(), 'listing': 'as with exactly the needed tapes'}
        return None
    return judge


def ref(names):
    """a library of exactly what is needed"""
    need = [n for n in LIBS if n in names]
    return req(names, [''.join(tape(n) for n in need)] if need else [], [] if need else ['X1ALGOL_LIB=/nonexistent'])


def compositions(n):
    """all ways to cut a sequence of n tapes in files"""
    for m in range(1 << (n - 1)):
        c = []
        k = 1
        for i in range(n - 1):
            if m >> i & 1:
                c.append(k)
                k = 1
            else:
                k += 1
        yield c + [k]


def cut(order, comp):
    r = []
    i = 0
    for k in comp:
        r.append(''.join(tape(n) for n in order[i:i + k]))
        i += k
    return r


class Orders(H.Space):
    name = 'orders'
    rule = 'all subsets of the 5 tape procedures used by the program x all 120 orders of the tapes x ways to spread them over files (quick: one file and one file each; thorough: all 16)'

    def descs(self, tier):
        for m in range(1, 32):
            for p in permutations(range(5)):
                for c in compositions(5):
                    if tier != 'quick' or c in ([5], [1] * 5) or (p == (4, 2, 0, 3, 1)):
                        yield m, p, tuple(c)

    def case(self, d):
        m, p, c = d
        names = [n for i, n in enumerate(LIBS) if m >> i & 1]
        libs = cut([LIBS[i] for i in p], c)
        return H.Case('orders:%r' % (d,), [req(names, libs), ref(names)], judge_same(names), '%s with %s' % (names, [LIBS[i] for i in p]), 6, 5)


class Needs(H.Space):
    name = 'needs'
    rule = 'all subsets of the 8 procedures outside the compiler: with the default library, with exactly the needed tapes in both orders, and with every one missing'

    def descs(self, tier):
        for m in range(256):
            yield m, 'default'
            yield m, 'extra'
            for k in range(5):
                if m >> k & 1:
                    yield m, 'missing', k
                    yield m, 'missing, file', k
            if m & 31:
                yield m, 'nolib'

    def case(self, d):
        names = [n for i, n in enumerate(LIBS + BUILTIN) if d[0] >> i & 1]
        need = [n for n in LIBS if n in names]
        key = 'needs:%r' % (d,)
        if d[1] == 'default':
            return H.Case(key, [req(names, []), ref(names)], judge_same(names), text(names), 9, 8)
        if d[1] == 'extra':
            if not need:
                return None
            return H.Case(key, [req(names, [tape(n) for n in need[::-1]]), ref(names)], judge_same(names), text(names), 9, 8)
        if d[1] == 'nolib':
            r = req(names, [], ['X1ALGOL_LIB=/nonexistent'])
            gone = need
        else:
            gone = [LIBS[d[2]]]
            have = [n for n in LIBS if n not in gone]
            r = req(names, [''.join(tape(n) for n in have)] if 'file' not in d[1] else [tape(n) for n in have])

        def judge(obs):
            o = obs[0]
            if o.status == 0 or o.out or not o.err.strip():
                return 'a missing procedure must be an error', {'status': 1, 'stdout': ''}
            if d[1] != 'nolib':
                t = (o.err + (o.files['p.x1'] or b'')).decode('utf-8', 'replace')
                if gone[0] not in t:
                    return 'the message does not name the missing procedure', {'message': gone[0]}
            return None
        return H.Case(key, [r], judge, text(names), 2, 1)


# bodies of procedures nobody needs: every code length, runs of zeros and ones
BODIES = [[(33, 0)] * n for n in (1, 2, 3, 5, 6, 7, 8, 9, 10, 12, 16, 24, 40, 100, 1000)] \
    + [[(112, 0)] * n for n in (1, 7, 1000)] + [[(0, 0o777777777)] * n for n in (1, 2, 40)] + [[(0, 0)] * n for n in (1, 3, 50)] \
    + [[(0, 0o0122000001)] * n for n in (1, 2, 4, 8, 16)] + [[(12, 0)] + [(33, 0)] * n + [(16, 0)] * m for n in range(0, 30, 1) for m in range(0, 4)] \
    + [[(0, k)] for k in range(1, 32768, 1 << 9)] + [[(o, 0)] * 9 for o in range(8, 113)] + [[(0, 0o0022000000 + k)] * 6 for k in range(0, 70)]


class Foreign(H.Space):
    name = 'unneeded'
    rule = 'tapes of procedures that are not needed, of every shape of contents and every number 0-50, before, between and after the needed ones, in the same file and in files of their own; duplicates, blank tape and empty files'

    def descs(self, tier):
        for b in range(len(BODIES)):
            for place in range(3):
                yield 'body', b, 40, place
        for num in range(0, 51):
            for b in (0, 9, 16):
                for place in range(3):
                    yield 'body', b, num, place
        for a in range(0, len(BODIES), 3 if tier == 'quick' else 1):
            for b in range(0, len(BODIES), 7 if tier == 'quick' else 1):
                yield 'two', a, b
        for k in range(5):
            for j in range(5):
                yield 'dup', k, j
        for z in (1, 2, 3, 4, 5, 10, 100, 5000):
            for place in range(3):
                yield 'blank', z, place
        for place in range(4):
            yield 'empty', place, 0

    def case(self, d):
        kind = d[0]
        # program uses SUM and PRSYM
        names = ['SUM', 'PRSYM']
        A, B = tape('SUM'), tape('PRSYM')
        if kind == 'body':
            if BYNUM.get(d[2]) in names:
                # a program that does not use it
                names = ['RANDOM', 'RESYM']
                A, B = tape('RANDOM'), tape('RESYM')
            f = foreign(d[2], BODIES[d[1]])
            libs = [[f + A + B], [A + f + B], [f, A, B]][d[3]] if d[3] < 3 else None
        elif kind == 'two':
            f, g = foreign(40, BODIES[d[1]]), foreign(9, BODIES[d[2]])
            libs = [f + g + B + g + A]
        elif kind == 'dup':
            names = list(LIBS)
            libs = [tape(LIBS[d[1]]) + ''.join(tape(n) for n in LIBS) + tape(LIBS[d[2]])]
        elif kind == 'blank':
            z = '0\n' * d[1]
            libs = [[z + A + B], [A + z + B], [A + z, z + B + z]][d[2]]
        else:
            libs = [['', A, B], [A, '', B], [A, B, ''], ['\n', A + '\n\n', '  ' + B]][d[1]]
        if kind == 'empty':     # an empty file is a tape cut at its beginning
            def judge(obs):
                o, e = obs
                if o.status == 1 and not o.out and o.err.strip():
                    return None
                return judge_same(names)(obs)
        else:
            judge = judge_same(names)
        return H.Case('unneeded:%r' % (d,), [req(names, libs), ref(names)], judge, '%s\n%s' % (names, '---\n'.join(libs)), len(libs) + 2, len(libs) + 1)


class Damage(H.Space):
    name = 'damage'
    rule = 'every single altered bit of every number of the library and of blank tape around the procedures, every number out of range, every number removed or doubled, every truncation, x programs that need all, one or two of the procedures'
    NEED = [LIBS, ['SUM'], ['SETRANDOM'], ['PRSYM', 'RANDOM'], ['RESYM']]

    def descs(self, tier):
        lib = ''.join(tape(n) for n in LIBS)
        n = len(lib.split())
        for u in range(len(self.NEED) if tier != 'quick' else 3):
            for i in range(n):
                for b in range(8):
                    yield u, 'bit', i, b
                yield u, 'drop', i, 0
                yield u, 'cut', i, 0
                for b in range(4):
                    yield u, 'range', i, b
            for i in range(len(LIBS) + 1):
                for b in range(8):
                    for k in range(3):
                        yield u, 'blank', i * 3 + k, b
                if tier != 'quick':
                    yield u, 'twice', i, 0
                    for b in range(7):
                        for c in range(b):
                            yield u, 'bits', i, b * 8 + c
            for i in range(0, len(lib)):
                yield u, 'chars', i, 0

    def case(self, d):
        u, kind, i, b = d
        names = self.NEED[u]
        lib = ''.join(tape(n) for n in LIBS)
        v = [int(x) for x in lib.split()]
        if kind == 'bit':
            v[i] ^= 1 << b
        elif kind == 'range':
            v[i] = (128, 256 + v[i], -v[i], 65536 + v[i])[b]
        elif kind == 'blank':
            # blank tape around the procedures, with one hole in it
            v = []
            for j in range(len(LIBS) + 1):
                v += [0, 0, 0] + ([int(x) for x in tape(LIBS[j]).split()] if j < len(LIBS) else [])
                if j == i // 3:
                    v[(len(v) if j == len(LIBS) else len(v) - len(tape(LIBS[j]).split())) - 3 + i % 3] = 1 << b
        elif kind == 'drop':
            del v[i]
        elif kind == 'cut':
            v = v[:i]
        elif kind == 'twice':
            v.insert(i, v[i])
        elif kind == 'bits':
            v[i] ^= 1 << (b >> 3) | 1 << (b & 7)
        t = lib[:i] if kind == 'chars' else ' '.join(map(str, v)) + '\n'
        if kind in ('drop', 'twice', 'bits'):
            # beyond what the parity of four heptades can tell: no crash, no hang
            def judge(obs):
                o = obs[0]
                if o.status > 100:
                    return 'crash or runaway', {'status': '0 or 1'}
                return None
            r = req(names, [t])
            r.args = ['x1algc', 'p.a60', 'l0.lib']
            return H.Case('damage:%r' % (d,), [r], judge, t, 2, 1)

        def judge(obs):
            o, e = obs
            if o.status == 0:
                if not same(o, e):
                    return 'a damaged tape was executed', {'status': 1, 'stdout': ''}
                return None
            if o.status != 1 or o.out or not o.err.strip():
                return 'a damaged tape must be reported as an error', {'status': 1, 'stdout': ''}
            return None
        return H.Case('damage:%r' % (d,), [req(names, [t]), ref(names)], judge, t, 2, 1)


class Forms(H.Space):
    """the compiler on its own: text tapes in every layout, binary tapes (option -b), program from standard input"""
    name = 'forms'
    rule = 'all subsets of the 5 tape procedures x {text with lines, spaces, tabs, leading zeros, many blanks; binary with and without blank tape between} in one file and in a file each, program as file or from standard input, and (binary) every altered bit and truncation'
    FORMS = {'lines': lambda v: '\n'.join(map(str, v)) + '\n', 'spaces': lambda v: '  '.join(map(str, v)), 'tabs': lambda v: '\t' + '\t\r\n'.join(map(str, v)) + '\t',
             'zeros': lambda v: ' '.join('%05d' % x for x in v) + '\n', 'blanks': lambda v: '0 0 0 0 0 ' + ' '.join(map(str, v)) + ' 0 0 0 0 0 0 0\n',
             'binary': lambda v: bytes(v), 'binary blank': lambda v: bytes(7) + bytes(v) + bytes(300), 'stdin': None}

    def descs(self, tier):
        for m in range(1, 32):
            for f in self.FORMS:
                for order in (0, 1):
                    for many in (0, 1):
                        if not (f == 'stdin' and (many or order)):
                            yield m, f, order, many
        n = sum(len(tape(x).split()) for x in LIBS)
        for i in range(n):
            for b in range(9):
                yield 31, 'damage', i, b

    def case(self, d):
        m, f, order, many = d
        names = [n for i, n in enumerate(LIBS) if m >> i & 1]
        fl = [('p.a60', text(names))]
        if f == 'stdin':
            r = H.Req(['sh', '-c', 'x1algc <p.a60 >p.x1'], fl, b'', want=['p.x1'])

            def judge(obs):
                # without any tape: the missing procedures must be reported
                if obs[0].status != 1 or not (obs[0].files['p.x1'] or b'').strip():
                    return 'missing procedures must be reported', {'status': 1}
                return None
            return H.Case('forms:%r' % (d,), [r], judge, fl[0][1], 1, 1)
        tapes = [[int(x) for x in tape(n).split()] for n in (LIBS[::-1] if order and f != 'damage' else LIBS)]
        if f == 'damage':
            v = sum(tapes, [])
            if many == 8:
                v = v[:order]
            else:
                v[order] ^= 1 << many
            libs = [bytes(v)]
        elif many:
            libs = [self.FORMS[f](v) for v in tapes]
        else:
            libs = [self.FORMS[f](sum(tapes, []) if not f.endswith('blank') else sum(([0] * 5 + v for v in tapes), []))]
        files = fl + [('l%d' % k, t) for k, t in enumerate(libs)]
        b = f.startswith('binary') or f == 'damage'
        r = H.Req(['sh', '-c', 'x1algc %s p.a60 %s >p.x1; s=$?; [ $s = 0 ] || { cat p.x1 >&2; exit $s; }; exec x1sim p.x1' % ('-b' if b else '', ' '.join('l%d' % k for k in range(len(libs))))], files, b'k', want=['p.x1'])
        if f == 'damage':
            def judge(obs):
                o, e = obs
                if o.status == 0 and not same(o, e) or o.status > 1 or o.status == 1 and (o.out or not o.err.strip()):
                    return 'a damaged tape must be reported as an error', {'status': 1, 'stdout': ''}
                return None
        else:
            judge = judge_same(names)
        return H.Case('forms:%r' % (d,), [r, ref(names)], judge, '%s with %s' % (names, f), 6, 5)


def main(tier):
    return H.check('P16', [Needs(), Orders(), Foreign(), Damage(), Forms()], tier, assumptions=[
        'damage = one altered bit of one punched row, or the tape cut at any row or character; the four-row parity cannot detect an even number of altered bits'])
