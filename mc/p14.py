"""P14: text passes through unchanged."""
from itertools import product
from . import harness as H
from .p12 import SINGLE, MULTI

# doc/algol-encoding.md: code -> symbol
TABLE = {}
for b, c in SINGLE.items():
    TABLE.setdefault(c, chr(b))
for k, c in MULTI.items():
    TABLE[c] = k.decode()
TABLE[92] = ':='

# spelling in a string -> the symbol printed
SYM = [(t, t) for c, t in sorted(TABLE.items()) if c not in (162, 163, 102, 103)]
ALTS = [('*', '×'), ('@', '⏨'), ('_>', '≥'), ('_<', '≤'), ('|=', '≠'), ('_=', '≡'), ('_¬', '⊃'), ('_:', '÷'), ('|∧', '↑'), ('>̲', '≥'), ('<̲', '≤'), ('=̲', '≡'), (':̲', '÷')]
NEST = [("`'", "`'"), ("`a'", "`a'"), ('|<b|>', "`b'")]
ALL = SYM + ALTS + NEST


def fix(t):
    """: followed by = is the symbol := , printed alike"""
    return t


class Strings(H.Space):
    """several strings to a program"""
    pack = 12
    mz = False

    def model(self, d):
        s = self.text(d)
        return 'ok', '(' + ''.join(p for _, p in s) + ')', len(s) + 1, len(s)

    def program(self, ds):
        st = []
        for d in ds:
            s = ''.join(a for a, _ in self.text(d))
            st.append("PRINTTEXT(`(%s)'); NLCR" % s)
        return '_b_e_g_i_n\n' + ';\n'.join(st) + '\n_e_n_d\n'

    def describe(self, d):
        return repr(''.join(a for a, _ in self.text(d)))


class Pairs(Strings):
    name = 'symbols'
    rule = 'every symbol, every pair of symbols and (quick: reduced alphabet; thorough: all) every triple, with all alternative spellings and nested quotes'

    def descs(self, tier):
        yield ()
        for i in range(len(ALL)):
            yield i,
        for c in product(range(len(ALL)), repeat=2):
            yield c
        red = [k for k, (a, p) in enumerate(ALL) if a in ('a', 'Z', '0', ':', '=', ':=', ' ', '\n', '"', '⏨', '≥', '_>', "`'", ';', "`a'")]
        if tier != 'quick':
            red = range(len(ALL))[::2] if len(ALL) > 60 else range(len(ALL))
        for c in product(red, repeat=3):
            yield c

    def text(self, d):
        return [ALL[k] for k in d]

    def program(self, ds):
        return Strings.program(self, ds)


class Lengths(Strings):
    name = 'lengths'
    pack = 1
    rule = 'strings of every length 0-130, then to 2000, with distinct symbols at every place, starting at every place of the alphabet'

    def descs(self, tier):
        for n in range(0, 131):
            for r in range(0, len(ALL), 7 if tier == 'quick' else 1):
                yield n, r
        for n in (200, 255, 256, 257, 300, 511, 512, 513, 766, 767, 768, 769, 1000, 1023, 1024, 1025, 2000, 3000):
            for r in (0, 5, 50):
                yield n, r

    def text(self, d):
        n, r = d
        return [ALL[(r + k * (1 + r % 5) + k // len(ALL)) % len(ALL)] for k in range(n)]

    def case(self, d):
        s = self.text(d)
        lit = ''.join(a for a, _ in s)
        out = ''.join(p for _, p in s)
        # twice, with other strings before and after: nothing may be disturbed
        src = "_b_e_g_i_n PRINTTEXT(`<x>'); PRINTTEXT(`%s'); PRINTTEXT(`'); PRINTTEXT(`<yz>'); PRINTTEXT(`%s') _e_n_d\n" % (lit, lit)
        return H.Case('%s: %d %d' % (self.name, d[0], d[1]), [H.prog_req(src)], H.expect_run('ok', '<x>' + out + '<yz>' + out, mz=False), src, d[0] + 1, d[0])


class Quotes(Strings):
    name = 'quotes'
    rule = 'all balanced sequences of quotes and letters up to 10 symbols, in three spellings of the quotes'

    def descs(self, tier):
        L = 10 if tier == 'quick' else 13

        def gen(n, depth, acc):
            if depth == 0:
                yield acc
            if n == 0:
                return
            for c in 'x<>' if depth else 'x<':
                d = depth + (c == '<') - (c == '>')
                if d <= n - 1:
                    yield from gen(n - 1, d, acc + c)
        for s in gen(L, 0, ''):
            for sp in (0, 1, 2):
                yield s, sp

    def text(self, d):
        s, sp = d
        r, k = [], 0
        for c in s:
            if c == 'x':
                r.append(('x', 'x'))
            else:
                k += 1
                alt = sp == 1 or (sp == 2 and k % 2)
                r.append((('|<' if alt else '`') if c == '<' else ('|>' if alt else "'"), '`' if c == '<' else "'"))
        return r


CONTENT = ['', 'a', 'ab', 'abc', 'abcd', 'x y', "`q'", "a`b`c'd'e", ' lead', 'trail ', '\n', 'a;b:=c', '"?', '×÷↑≥≤≠¬∧∨⊃≡⏨', 'e n d', '1234567890123456789012345', '\t', "'".join(['`', '']), ',', '(', ')', '[1:2]']


class Paths(H.Space):
    name = 'parameters'
    rule = 'strings of 22 contents through 0-6 procedures, at each position among other parameters, to recursive procedures, several strings at once, in the branches of conditionals and the bodies of loops'

    def descs(self, tier):
        for k in range(len(CONTENT)):
            for depth in range(0, 7):
                for pos in range(3):
                    yield 'chain', k, depth, pos
            for depth in range(0, 6):
                yield 'rec', k, depth, 0
            for w in ('two', 'if', 'loop', 'func', 'mixed', 'local', 'formal', 'same'):
                yield w, k, 0, 0

    def case(self, d):
        w, k, depth, pos = d
        c = CONTENT[k]
        o = CONTENT[(k + 5) % len(CONTENT)]
        S = "`%s'" % c
        O = "`%s'" % o
        spec = lambda p: '_i_n_t_e_g_e_r i' + '; _s_t_r_i_n_g s, t'
        if w == 'chain':
            pr = ''
            order = [['s', 't', 'i'], ['t', 's', 'i'], ['i', 't', 's']][pos]
            act = {'s': S, 't': O, 'i': '7'}
            for n in range(1, depth + 1):
                body = 'PRINTTEXT(s); PRINTTEXT(t)' if n == 1 else 'p%d(%s)' % (n - 1, ', '.join(order))
                pr += '_p_r_o_c_e_d_u_r_e p%d(%s); _i_n_t_e_g_e_r i; _s_t_r_i_n_g s, t; _b_e_g_i_n %s _e_n_d;\n' % (n, ', '.join(order), body)
            src = '_b_e_g_i_n %s %s _e_n_d' % (pr, 'p%d(%s)' % (depth, ', '.join(act[x] for x in order)) if depth else 'PRINTTEXT(%s); PRINTTEXT(%s)' % (S, O))
            out = c + o
        elif w == 'rec':
            src = '_b_e_g_i_n _p_r_o_c_e_d_u_r_e p(n, s); _v_a_l_u_e n; _i_n_t_e_g_e_r n; _s_t_r_i_n_g s; _b_e_g_i_n _i_f n > 0 _t_h_e_n p(n - 1, s) _e_l_s_e PRINTTEXT(%s); PRINTTEXT(s) _e_n_d; p(%d, %s) _e_n_d' % (O, depth, S)
            out = o + c * (depth + 1)
        elif w == 'two':
            src = '_b_e_g_i_n _p_r_o_c_e_d_u_r_e p(s, t); _s_t_r_i_n_g s, t; _b_e_g_i_n PRINTTEXT(t); PRINTTEXT(s); PRINTTEXT(t) _e_n_d; p(%s, %s); p(%s, %s) _e_n_d' % (S, O, O, S)
            out = o + c + o + c + o + c
        elif w == 'if':
            src = '_b_e_g_i_n _i_n_t_e_g_e_r i; _f_o_r i := 1, 2 _d_o _i_f i = 1 _t_h_e_n PRINTTEXT(%s) _e_l_s_e PRINTTEXT(%s); _i_f i > 2 _t_h_e_n PRINTTEXT(%s); PRINTTEXT(`.\') _e_n_d' % (S, O, O)
            out = c + o + '.'
            src = src.replace('_i_f i > 2', '_i_f 1 > 2')
        elif w == 'loop':
            src = '_b_e_g_i_n _i_n_t_e_g_e_r i; _f_o_r i := 1 _s_t_e_p 1 _u_n_t_i_l 5 _d_o _b_e_g_i_n PRINTTEXT(%s); print(i) _e_n_d _e_n_d' % S
            out = ''.join(c + str(i) for i in range(1, 6))
        elif w == 'func':
            src = '_b_e_g_i_n _i_n_t_e_g_e_r _p_r_o_c_e_d_u_r_e f(s); _s_t_r_i_n_g s; _b_e_g_i_n PRINTTEXT(s); f := 3 _e_n_d; print(f(%s) + f(%s)) _e_n_d' % (S, O)
            out = c + o + '6'
        elif w == 'mixed':
            src = '_b_e_g_i_n _p_r_o_c_e_d_u_r_e p(a, s, x, t, b); _v_a_l_u_e a; _r_e_a_l a, x; _s_t_r_i_n_g s, t; _b_o_o_l_e_a_n b; _b_e_g_i_n print(a); PRINTTEXT(s); print(x); PRINTTEXT(t); _i_f b _t_h_e_n PRINTTEXT(s) _e_n_d; p(1.5, %s, 2 + 3, %s, 1 < 2) _e_n_d' % (S, O)
            out = '1.5' + c + '5' + o + c
        elif w == 'local':
            src = '_b_e_g_i_n _p_r_o_c_e_d_u_r_e p(s); _s_t_r_i_n_g s; _b_e_g_i_n _i_n_t_e_g_e_r v; _p_r_o_c_e_d_u_r_e q; _b_e_g_i_n _i_n_t_e_g_e_r w; w := v; PRINTTEXT(s); print(w) _e_n_d; v := 4; q; PRINTTEXT(s) _e_n_d; p(%s) _e_n_d' % S
            out = c + '4' + c
        elif w == 'formal':
            src = '_b_e_g_i_n _p_r_o_c_e_d_u_r_e p(f, s); _p_r_o_c_e_d_u_r_e f; _s_t_r_i_n_g s; _b_e_g_i_n f(s); f(%s) _e_n_d; _p_r_o_c_e_d_u_r_e q(s); _s_t_r_i_n_g s; _b_e_g_i_n PRINTTEXT(s); print(1) _e_n_d; p(q, %s); p(PRINTTEXT, %s) _e_n_d' % (O, S, S)
            out = c + '1' + o + '1' + c + o
        else:
            src = '_b_e_g_i_n _p_r_o_c_e_d_u_r_e p(s, t, u); _s_t_r_i_n_g s, t, u; _b_e_g_i_n PRINTTEXT(s); PRINTTEXT(t); PRINTTEXT(u) _e_n_d; p(%s, %s, %s) _e_n_d' % (S, S, S)
            out = c * 3
        return H.Case('%s: %s %d %d %d' % ((self.name,) + d), [H.prog_req(src + '\n')], H.expect_run('ok', out, mz=False), src, depth + 2, depth + 1)


class Copy(H.Space):
    name = 'copy'
    rule = 'RESYM then PRSYM of every symbol, every pair, every (quick: reduced) triple; codes of every symbol and spelling; PRSYM of every code -5..255 of the table; tape of all symbols in every rotation'
    T = {c: t for c, t in TABLE.items() if c != 92}

    def descs(self, tier):
        cs = sorted(self.T)
        yield 'all', cs
        for n in (1, 2):
            for c in product(cs, repeat=n):
                yield 'copy', c
        for k in range(len(cs)):
            yield 'copy', tuple(cs[k:] + cs[:k]) * 3
        red = cs if tier != 'quick' else [10, 62, 0, 66, 69, 73, 76, 89, 93, 102, 103, 118, 119, 162, 163]
        for c in product(red, repeat=3):
            yield 'copy', c
        for c in sorted(TABLE):
            for how in ('const', 'var', 'expr', 'param', 'elem', 'real', 'formal'):
                yield how, c
        for k in range(len(cs)):
            yield 'codes', tuple(cs[k:] + cs[:k])

    def case(self, d):
        w, c = d
        inp = b''
        if w == 'all':
            src = '_b_e_g_i_n _i_n_t_e_g_e_r k; ' + '; '.join('PRSYM(%d)' % x for x in c) + ' _e_n_d\n'
            out = ''.join(self.T[x] for x in c)
        elif w == 'copy':
            inp = ''.join(self.T[x] for x in c).encode()
            src = '_b_e_g_i_n _i_n_t_e_g_e_r k; l: k := RESYM; _i_f k ≠ 255 _t_h_e_n _b_e_g_i_n PRSYM(k); _g_o_t_o l _e_n_d _e_n_d\n'
            out = inp.decode()
        elif w == 'codes':
            inp = ''.join(self.T[x] for x in c).encode()
            src = '_b_e_g_i_n _i_n_t_e_g_e_r k; l: k := RESYM; print(k); SPACE(1); _i_f k ≠ 255 _t_h_e_n _g_o_t_o l _e_n_d\n'
            out = ''.join('%d ' % x for x in c + (255,))
        else:
            t = TABLE[c]
            b = {'const': 'PRSYM(%d)' % c, 'var': 'i := %d; PRSYM(i)' % c, 'expr': 'i := %d; PRSYM(i ÷ 1 + 0 × 3)' % c, 'param': 'p(%d)' % c, 'elem': 'a[2] := %d; PRSYM(a[2])' % c,
                 'real': 'x := %d; PRSYM(x)' % c, 'formal': 'q(PRSYM, %d)' % c}[w]
            src = '_b_e_g_i_n _i_n_t_e_g_e_r i; _r_e_a_l x; _i_n_t_e_g_e_r _a_r_r_a_y a[1:3]; _p_r_o_c_e_d_u_r_e p(n); _i_n_t_e_g_e_r n; PRSYM(n); _p_r_o_c_e_d_u_r_e q(f, n); _p_r_o_c_e_d_u_r_e f; _i_n_t_e_g_e_r n; f(n); ' + b + '; %s _e_n_d\n' % b
            out = t * 2
        return H.Case('%s: %s %r' % (self.name, w, c), [H.prog_req(src, input=inp)], H.expect_run('ok', out, mz=False), repr(inp) + src, 2, 1)


def main(tier):
    return H.check('P14', [Pairs(), Lengths(), Quotes(), Paths(), Copy()], tier,
                   assumptions=['strings hold symbols of the documented table only (no underlined words, no other characters)'])
