"""P20: the compiler terminates with code or a diagnostic on any input."""
import re
from itertools import product
from . import harness as H, algol as A

KW = set(A.KEYWORDS)


def spell(toks):
    return ' '.join(A.U(t) if t in KW else t for t in toks)


# ------------------------------------------------------------ the oracle
OBJ = re.compile(rb'(?:[^\n]*\n)*?\s*\d+\s*\n')


def total(o, must=None):
    """None or what is wrong with one compilation"""
    if o.status == 127:
        raise RuntimeError('the compiler was not built')
    if o.status >= 1000 or o.status == 99 or b'Sanitizer' in o.err:
        return 'the compiler crashed or did not terminate', 'status 0 with code or 1 with a diagnostic'
    if o.status == 0:
        if must:
            return 'accepted although %s' % must, 'non-zero status and a diagnostic'
        if not o.out.strip():
            return 'status 0 without object code', 'status 0 with code or 1 with a diagnostic'
    elif not o.out.strip() and not o.err.strip():
        return 'failed without a diagnostic', 'status 0 with code or 1 with a diagnostic'
    return None


DECLARED = set('i j x b a p q f s l'.split())


def defects(toks, known=()):
    """Reason why a program that consists of these tokens must be rejected, by
    a scan that follows the Report: comments after end, brackets, blocks."""
    while 'comment' in toks and ';' in toks[toks.index('comment'):]:
        k = toks.index('comment')
        toks = toks[:k] + toks[k + toks[k:].index(';') + 1:]
    first = [t for t in toks if (t in KW or not t[0].isalnum()) and t not in ('true', 'false')]
    if not first or first[0] != 'begin':
        return 'it does not start with begin'
    depth = r = s = 0
    k = 0
    n = len(toks)
    while k < n:
        t = toks[k]
        if t == '(':
            r += 1
        elif t == ')':
            r -= 1
        elif t == '[':
            s += 1
        elif t == ']':
            s -= 1
        elif t == 'begin':
            depth += 1
        elif t in (';', 'end'):
            if r:
                return 'the number of ( and ) differs'
            if s:
                return 'the number of [ and ] differs'
            if t == 'end':
                depth -= 1
                if depth == 0:
                    return None
                k += 1
                while k < n and toks[k] not in (';', 'end', 'else'):
                    k += 1
                continue
        elif t == 'comment':
            while k < n and toks[k] != ';':
                k += 1
        k += 1
    return 'the text is not complete'


def compile_case(key, text, must, exe='x1algc.san', lib=None, cpu=5):
    files = [('p.a60', text)] + ([('t.lib', lib)] if lib is not None else [])
    args = [exe, 'p.a60'] + (['t.lib'] if lib is not None else [])
    return H.Case(key, [H.Req(args, files, cpu=cpu)], lambda o: total(o[0], must), text if isinstance(text, str) else repr(text))


# -------------------------------------------------- all token sequences
DECL = 'integer i , j ; real x ; boolean b ; integer array a [ 1 : 9 ] ; procedure p ; i := 1 ; ' \
    'procedure q ( n ) ; integer n ; i := n ; real procedure f ( u ) ; value u ; real u ; f := u ; switch s := l , l ;'.replace(' : 9', ' : 9')
ST = 'begin end ; := i a p q f s l 1 ( ) [ ] , if then else for do goto + < b true step until while ¬ :'.split()
EX = 'i x a f b 1 2.5 ( ) [ ] , if then else + - × ÷ ↑ < = ∧ ¬ true sin'.split()
DC = 'integer real boolean array procedure switch own value label string begin end ; := i k m 1 ( ) [ ] , :'.split()
WH = 'begin end ; := integer i 1 procedure if then else for do ( ) comment'.split()
CTX = {
    'statement': ('begin ' + DECL + ' l : %s end', ST),
    'after then': ('begin ' + DECL + ' l : if b then %s ; i := 2 end', ST),
    'body': ('begin ' + DECL.replace('i := 1 ;', '%s ;') + ' l : p end', ST),
    'loop': ('begin ' + DECL + ' l : for i := 1 , 2 do %s end', ST),
    'value': ('begin ' + DECL + ' l : x := %s end', EX),
    'condition': ('begin ' + DECL + ' l : if %s then i := 1 else i := 2 end', EX),
    'subscript': ('begin ' + DECL + ' l : a [ %s ] := 1 end', EX),
    'actual': ('begin ' + DECL + ' l : q ( %s ) end', EX),
    'for list': ('begin ' + DECL + ' l : for i := %s do p end', EX + ['step', 'until', 'while']),
    'goto': ('begin ' + DECL + ' l : goto %s end', 's l i a 1 ( ) [ ] , if then else b +'.split()),
    'switch': ('begin ' + DECL.replace('l , l', '%s') + ' l : end', 's l i a 1 ( ) [ ] , if then else b +'.split()),
    'declaration': ('begin integer i ; %s ; i := 1 end', DC),
    'heading': ('begin integer i ; procedure p %s ; i := 1 ; p end', DC),
    'bounds': ('begin integer i ; array a %s ; i := 1 end', 'i 1 2.5 - ( ) [ ] , : + ; b'.split()),
    'local bounds': ('begin integer i ; procedure p ; begin array a %s ; i := 1 end ; p end', 'i 1 2.5 - ( ) [ ] , : + ;'.split()),
    'whole': ('%s', WH),
}


class Tokens(H.Space):
    name = 'all token sequences up to a length in a context'
    rule = 'every sequence of the tokens of the context; termination, no out-of-bounds access, unbalanced or incomplete texts rejected'

    def descs(self, tier):
        deep = tier != 'quick'
        for c in CTX:
            tk = CTX[c][1]
            top = 3 if len(tk) <= 17 or deep or c == 'statement' else 2
            if c == 'whole':
                top = 4 if deep else 3
            for n in range(0, top + 1):
                for t in product(range(len(tk)), repeat=n):
                    yield (c, t)

    def case(self, desc):
        ctx, tk = CTX[desc[0]]
        text = (ctx % ' '.join(tk[k] for k in desc[1])).split()
        src = spell(text)
        return compile_case('tokens %s %s' % (desc[0], ' '.join(tk[k] for k in desc[1])), src, defects(text))



class Repeats(H.Space):
    name = 'tokens and pairs of tokens repeated many times in a context'
    rule = 'every token (n = 2, 10, 100, 1000, 8000, with all memory checks) and every pair of tokens (n = 800; 40 and 3000) in the contexts'

    def descs(self, tier):
        for c in CTX:
            tk = CTX[c][1]
            for k in range(len(tk)):
                for n in (2, 10, 100, 1000, 8000):
                    yield (c, (k,), n)
            if c in ('statement', 'value', 'declaration', 'heading', 'whole') or tier != 'quick':
                for j in range(len(tk)):
                    for k in range(len(tk)):
                        if j != k:
                            yield (c, (j, k), 800 if tier == 'quick' else 3000)
                            if tier != 'quick':
                                yield (c, (j, k), 40)

    def case(self, desc):
        ctx, tk = CTX[desc[0]]
        w = [tk[k] for k in desc[1]]
        a, b = ctx.split('%s')
        text = a.split() + w * desc[2] + b.split()
        return compile_case('repeat %s (%s) %d times' % (desc[0], ' '.join(w), desc[2]), spell(text), defects(text),
                            'x1algc.asan' if len(w) == 1 else 'x1algc.san')


# ------------------------------------------- damaged programs of a corpus
def corpus():
    from . import p13
    r = []
    for p in p13.PROGS:
        r.append((p[0], [A.U(t.s) if t.k == 'K' else t.s for t in p13.tokens(p[1])], [t.s for t in p13.tokens(p[1])],
                  [t.k for t in p13.tokens(p[1])]))
    return r


SUBST = 'begin end ; := ( ) [ ] , if then else for do goto step until while : + ¬ i 1 true integer array procedure value switch own comment'.split()


class Damage(H.Space):
    name = 'valid programs with one token removed, doubled, exchanged, replaced or inserted'
    rule = 'every token of 12 programs, that use every construction, removed, doubled, exchanged with the next, replaced by and preceded by each of 30 tokens'

    def descs(self, tier):
        for c in range(len(corpus())):
            n = len(corpus()[c][1])
            for k in range(n):
                yield (c, k, 'del', 0)
                yield (c, k, 'dup', 0)
                if k + 1 < n:
                    yield (c, k, 'swap', 0)
                    yield (c, k, 'del2', 0)
                for t in range(0, len(SUBST), 1 if tier != 'quick' else 2):
                    yield (c, k, 'sub', (t + k) % len(SUBST))
                    yield (c, k, 'ins', (t + k) % len(SUBST))
                if tier != 'quick':
                    for t in range(k + 1, n):
                        yield (c, k, 'cut', t)

    def case(self, desc):
        c, k, op, t = desc
        name, _, w, kinds = corpus_cached(c)
        w = list(w)
        if op == 'del':
            del w[k]
        elif op == 'del2':
            del w[k:k + 2]
        elif op == 'dup':
            w.insert(k, w[k])
        elif op == 'swap':
            w[k], w[k + 1] = w[k + 1], w[k]
        elif op == 'cut':
            del w[k:t]
        elif op == 'sub':
            w[k] = SUBST[t]
        else:
            w.insert(k, SUBST[t])
        return compile_case('damage %s %d %s %s' % (name, k, op, SUBST[t] if op in ('sub', 'ins') else t), spell(w), defects(w))


_CC = []


def corpus_cached(c):
    if not _CC:
        _CC.extend(corpus())
    return _CC[c]


class Truncated(H.Space):
    name = 'valid programs cut at every byte'
    rule = 'every prefix and every suffix of 12 programs and of the examples (quick: the short ones); incomplete prefixes rejected'

    def texts(self, tier):
        if not hasattr(self, '_t'):
            import glob, os
            r = [(n, ' '.join(t).encode()) for n, t, _, _ in corpus()]
            for f in sorted(glob.glob(os.path.join(H.B.REPO, 'examples', '*.a60'))):
                b = open(f, 'rb').read()
                if len(b) < (1500 if tier == 'quick' else 20000):
                    r.append((os.path.basename(f), b))
            self._t = r
        return self._t

    def descs(self, tier):
        for c, (n, b) in enumerate(self.texts(tier)):
            for k in range(len(b) + 1):
                yield (c, k, 0)
                yield (c, k, 1)

    def case(self, desc):
        c, k, side = desc
        n, b = self.texts(self.tier)[c]
        must = None
        if side == 0:
            # the text is complete only after the word end that closes the first begin
            u = b.decode('utf-8')
            last = max(u.rfind('_e_n_d'), u.rfind('e\u0332n\u0332d\u0332'))
            if last < 0 or k <= len(u[:last].encode()):
                must = 'the text is cut'
            b = b[:k]
        else:
            b = b[k:]
        return compile_case('cut %s %s %d' % (n, 'before' if side else 'after', k), b, must)


# ------------------------------------------------------- bytes and symbols
PLACES = {
    'before begin': ('%s _b_e_g_i_n _i_n_t_e_g_e_r ab; ab := 1 _e_n_d\n', True),
    'between statements': ('_b_e_g_i_n _i_n_t_e_g_e_r ab; ab := 1; %s ab := 2 _e_n_d\n', True),
    'in an identifier': ('_b_e_g_i_n _i_n_t_e_g_e_r ab; a%sb := 1; ab := 2 _e_n_d\n', True),
    'in an expression': ('_b_e_g_i_n _i_n_t_e_g_e_r ab; ab := 1%s2; ab := 2 _e_n_d\n', True),
    'in a word': ('_b_e_g_i_n _i_n_t%s_e_g_e_r ab; ab := 2 _e_n_d\n', True),
    'in a string': ('_b_e_g_i_n _i_n_t_e_g_e_r ab; PRINTTEXT(`a%sb\'); ab := 2 _e_n_d\n', True),
    'in a comment': ('_b_e_g_i_n _i_n_t_e_g_e_r ab; _c_o_m_m_e_n_t a%sb ; ab := 2 _e_n_d\n', True),
    'after end': ('_b_e_g_i_n _i_n_t_e_g_e_r ab; _b_e_g_i_n ab := 2 _e_n_d a%sb; ab := 2 _e_n_d\n', True),
    'after the last end': ('_b_e_g_i_n _i_n_t_e_g_e_r ab; ab := 2 _e_n_d a%s b', False),
}
SYMS = '¬×÷↑∧∨≠≡≤≥⊃⏨'
HEADS = sorted({b for c in SYMS + '\u0332' for b in c.encode()} | {0, 9, 10, 13, 0x20, 0x21, 0x22, 0x27, 0x28, 0x3b, 0x41, 0x5f, 0x60, 0x7c, 0x7f, 0x80, 0xbf, 0xc0, 0xc3, 0xe0, 0xe2,
                                                                  0xef, 0xf0, 0xff})


def foreign(bs):
    """the bytes contain something that is not a symbol of doc/algol-encoding.md"""
    try:
        t = bs.decode('utf-8')
    except UnicodeDecodeError:
        return True
    return any(ord(c) > 127 and c not in SYMS and c != '\u0332' for c in t)


class Bytes(H.Space):
    name = 'arbitrary bytes in the text'
    rule = 'every byte and byte pair (quick: pairs of 50 bytes), and every triple of 50 bytes (thorough), at 9 places; other symbols than those of the encoding table rejected'

    def descs(self, tier):
        for p in PLACES:
            for a in range(256):
                yield (p, (a,))
            for a in (range(256) if tier != 'quick' else HEADS):
                for b in (range(256) if tier != 'quick' else HEADS):
                    yield (p, (a, b))
            if tier != 'quick':
                for a in HEADS:
                    for b in HEADS:
                        for c in HEADS:
                            yield (p, (a, b, c))
        for a in range(256):
            for n in (1, 2, 100, 70000):
                yield ('alone', (a, n))

    def case(self, desc):
        p, bs = desc
        if p == 'alone':
            return compile_case('file of %d bytes %d' % (bs[1], bs[0]), bytes([bs[0]]) * bs[1], 'there is no program', 'x1algc.asan')
        a, b = PLACES[p][0].split('%s')
        bs = bytes(bs)
        must = None
        if PLACES[p][1] and foreign(bs) and bs[:1] != b'\0' and not (0 in bs and not foreign(bs[:bs.index(0)])):
            must = 'it contains a foreign character'
            if 0xcc in bs and 0xb2 in bs:
                must = None         # part of a combining underline
        return compile_case('bytes %s %s' % (p, bs.hex()), a.encode() + bs + b.encode(), must)


class Names(H.Space):
    name = 'constants in place of names'
    rule = '17 constants x 8 places of labels and 14 places where a name is declared, first and second in a list, in the program and in an inner block'

    CONST = ['0', '1', '9', '127', '8191', '12288', '32767', '65535', '123456', '67108863', '67108864', '99999999999', '1.5', '3.0⏨9', '⏨-20', 'true', 'false']
    DECL = ['integer %s', 'real %s', 'boolean %s', 'own integer %s', 'own real %s', 'own boolean %s', 'array %s[1:2]', 'integer array %s[1:2]', 'own array %s[1:2]',
            'switch %s := la', 'procedure %s; ab := 1', 'integer procedure %s; ab := 1', 'procedure pq(%s); ab := 1', 'real procedure rq(%s); integer x; rq := 1']

    def descs(self, tier):
        for c in self.CONST:
            for k, d in enumerate(self.DECL):
                for f in ('%s', 'cd, %s', '%s, cd'):
                    if f == '%s' or not d.startswith(('switch', 'procedure %s', 'integer procedure')):
                        for place in (0, 1, 2):
                            for w in ('', '; integer', '; eger'):
                                yield (c, k, f, place, w)
            for k, t in enumerate(self.LABEL):
                yield (c, k, '%s', 3, '')

    LABEL = ['begin integer ab; %s: ab := 1 end', 'begin integer ab; ab := 1; %s: end', 'begin integer ab; begin %s: begin ab := 1 end end end', 'begin integer ab; l: %s: ab := 1 end',
             'begin integer ab; procedure p; begin ab := 1; %s: m: end; p end', 'begin integer ab; if ab = 1 then %s: ab := 1 end', 'begin integer ab; for ab := 1 do %s: ab := 1 end',
             'begin integer ab; begin integer cd; %s: cd := 1 end; %s: end']

    def case(self, desc):
        c, k, f, place, w = desc
        if place == 3:
            return compile_case('constant label %s %d' % (c, k), spell_text(self.LABEL[k].replace('%s', c)).encode() + b'\n', 'a constant is declared')
        d = self.DECL[k] % (f % c)
        if '[' in d and 'switch' not in d:
            pass
        if place == 2:
            d = 'procedure zz; begin %s; ab := 2 end' % d
        t = 'begin integer ab; %s%s %s ab := 2; la: end %s\n' % ('ab := 3; begin ' if place == 1 else '', d, w and w + ' zw;' if w != '; eger' else '', 'end' if place == 1 else '')
        if place != 1 and not w:
            t = t.replace(d, d + ';')
        elif place == 1 and not w:
            t = t.replace(d, d + ';')
        t = spell_text(t)
        if w == '; eger':
            t = t.replace(' ab := 2; la', '; _e_g_e_r ab := 2; la', 1)
        return compile_case('constant %s %d %s %d %s' % desc, t.encode(), 'a constant is declared')


def spell_text(t):
    return re.sub(r'\b(%s)\b' % '|'.join(A.KEYWORDS), lambda m: A.U(m.group(1)), t)


class Delimiters(H.Space):
    name = 'malformed word delimiters and composed symbols'
    rule = 'every word delimiter with every letter replaced, plain or missing; every first and second letter; | and _ before every character'

    WORDS = {w: t for w, t in (
        ('begin', '%s _i_n_t_e_g_e_r ab; ab := 1 _e_n_d'), ('end', '_b_e_g_i_n _i_n_t_e_g_e_r ab; ab := 1 %s '), ('integer', '_b_e_g_i_n %s ab; ab := 1 _e_n_d'),
        ('real', '_b_e_g_i_n %s ab; ab := 1 _e_n_d'), ('boolean', '_b_e_g_i_n %s ab; ab := _t_r_u_e _e_n_d'), ('array', '_b_e_g_i_n %s ab[1:2]; ab[1] := 1 _e_n_d'),
        ('procedure', '_b_e_g_i_n %s p; ; p _e_n_d'), ('own', '_b_e_g_i_n %s _r_e_a_l ab; ab := 1 _e_n_d'), ('switch', '_b_e_g_i_n %s s := l; l: _e_n_d'),
        ('value', '_b_e_g_i_n _p_r_o_c_e_d_u_r_e p(a); %s a; _r_e_a_l a; ; p(1) _e_n_d'), ('label', '_b_e_g_i_n _p_r_o_c_e_d_u_r_e p(a); %s a; ; l: p(l) _e_n_d'),
        ('string', '_b_e_g_i_n _p_r_o_c_e_d_u_r_e p(a); %s a; ; p(`x\') _e_n_d'), ('if', '_b_e_g_i_n %s 1 = 1 _t_h_e_n _e_n_d'), ('then', '_b_e_g_i_n _i_f 1 = 1 %s _e_n_d'),
        ('else', '_b_e_g_i_n _i_f 1 = 1 _t_h_e_n %s _e_n_d'), ('for', '_b_e_g_i_n _i_n_t_e_g_e_r i; %s i := 1 _d_o _e_n_d'), ('do', '_b_e_g_i_n _i_n_t_e_g_e_r i; _f_o_r i := 1 %s _e_n_d'),
        ('step', '_b_e_g_i_n _i_n_t_e_g_e_r i; _f_o_r i := 1 %s 1 _u_n_t_i_l 2 _d_o _e_n_d'), ('until', '_b_e_g_i_n _i_n_t_e_g_e_r i; _f_o_r i := 1 _s_t_e_p 1 %s 2 _d_o _e_n_d'),
        ('while', '_b_e_g_i_n _i_n_t_e_g_e_r i; _f_o_r i := 1 %s i = 2 _d_o _e_n_d'), ('goto', '_b_e_g_i_n l: %s l _e_n_d'), ('true', '_b_e_g_i_n _b_o_o_l_e_a_n ab; ab := %s _e_n_d'),
        ('false', '_b_e_g_i_n _b_o_o_l_e_a_n ab; ab := %s _e_n_d'), ('comment', '_b_e_g_i_n %s ; _e_n_d'))}
    LET = 'abcdefghijklmnopqrstuvwxyzABCXYZ0129'

    def descs(self, tier):
        for w in self.WORDS:
            for k in range(len(w)):
                for c in self.LET:
                    yield (w, k, c)
                yield (w, k, 'plain')
                yield (w, k, 'cut')
                yield (w, k, 'cut plain')
                yield (w, k, 'space')
        for a in self.LET:
            yield ('first', a, '')
            for b in self.LET:
                yield ('first', a, b)
        for c in list(map(chr, range(33, 127))) + list(SYMS):
            for p in '_|':
                for q in ('', ' '):
                    yield ('sym', p, q + c)

    def case(self, desc):
        w, k, c = desc
        must = None
        if w == 'first':
            t = '_b_e_g_i_n _i_n_t_e_g_e_r ab; ab := 1; ' + A.U(k + c) + ' ab := 2 _e_n_d'
            if k in 'hjkmnqxyz0129ACXYZ':
                must = 'no word delimiter begins with this letter'
        elif w == 'sym':
            t = '_b_e_g_i_n _r_e_a_l ab; ab := 3 %s%s 2 _e_n_d' % (k, c)
            ok = {'_': '><=¬:', '|': '∧=<>'}[k]
            if not c.startswith(' ') and c not in ok and not (k == '_' and c.isalpha()) and c not in '_|':
                must = 'the composed symbol does not exist'
            if c in '!#$%&\\^{}~':
                must = None         # ignored everywhere
        else:
            if c == 'plain':
                x = A.U(w[:k]) + w[k] + A.U(w[k + 1:])
            elif c == 'cut':
                x = A.U(w[:k])
            elif c == 'cut plain':
                x = A.U(w[:k]) + w[k:]
            elif c == 'space':
                x = A.U(w[:k]) + ' ' + A.U(w[k:])
            else:
                x = A.U(w[:k] + c + w[k + 1:])
            t = self.WORDS[w] % x
        return compile_case('word %s %s %s' % desc, t, must)


STANDARD = 'read print TAB NLCR XEEN SPACE stop abs sign sqrt sin cos arctan ln exp entier PRINTTEXT FIXT FLOT ABSFIXT RESYM PRSYM EVEN SUM RANDOM SETRANDOM TIMEOFDAY'.split()
DECLARATORS = 'own integer real boolean array procedure switch value label string'.split()


def declarations(w, kinds):
    """positions of identifiers that are declared, specified or formal"""
    r = set()
    k = 0
    while k < len(w):
        if w[k] in DECLARATORS:
            while w[k] in DECLARATORS:
                sw = w[k]
                k += 1
            depth = 0
            while w[k] != ';' and w[k] != ':=':
                depth += w[k] == '['
                depth -= w[k] == ']'
                if kinds[k] == 'I' and not depth:
                    r.add(k)
                k += 1
            continue
        if kinds[k] == 'I' and w[k + 1] == ':' and w[k - 1] in (';', ':', 'begin', 'then', 'else', 'do'):
            r.add(k)
        k += 1
    return r


class Undeclared(H.Space):
    name = 'one occurrence of an identifier replaced by an undeclared one'
    rule = 'every occurrence of an identifier of 12 programs'

    def descs(self, tier):
        for c, (n, _, w, kinds) in enumerate(corpus()):
            for k, q in enumerate(kinds):
                if q == 'I':
                    for z in ('zzq', 'zzqzzqzzq'):
                        yield (c, k, z)

    def case(self, desc):
        c, k, z = desc
        n, _, w, kinds = corpus_cached(c)
        d = declarations(w, kinds)
        old = w[k]
        other = [m for m, t in enumerate(w) if m != k and t == old and m not in d and kinds[m] == 'I' and w[m - 1] != 'end']
        must = None
        if k not in d:
            if w[k - 1] != 'end':       # not in the comment after end
                must = 'an identifier is not declared'
        elif other and len([m for m in d if w[m] == old]) == 1 and old not in STANDARD:
            must = 'an identifier is not declared'
        w = list(w)
        w[k] = z
        return compile_case('undeclared %s %d %s' % (n, k, z), spell(w), must)


class Sizes(H.Space):
    name = 'growing programs with all memory checks'
    rule = 'the kinds of growth of P19 at sizes growing by a third'

    def descs(self, tier):
        from . import p19
        for f in p19.FAM:
            _, lo, hi, _ = p19.FAM[f]
            n = lo
            while n < hi:
                yield (f, n)
                n += max(1, n // (3 if tier == 'quick' else 20))
            yield (f, hi)

    def case(self, desc):
        from . import p19
        c = compile_case('size %s %d' % desc, p19.FAM[desc[0]][0](desc[1])[0], None, 'x1algc.asan', cpu=20)
        c.text = c.text[:3000]
        return c


class Tapes(H.Space):
    name = 'damaged library tapes'
    rule = 'a library cut at every byte and with every byte replaced by each of 8 characters'

    def descs(self, tier):
        import os
        b = open(os.path.join(H.B.REPO, 'library', 'sum.lib'), 'rb').read()
        self.lib = b
        for k in range(len(b)):
            yield (k, -1)
            for c in b' 09-x\n\xff\0':
                if b[k] != c:
                    yield (k, c)

    def case(self, desc):
        k, c = desc
        b = self.lib
        b = b[:k] if c < 0 else b[:k] + bytes([c]) + b[k + 1:]
        src = '_b_e_g_i_n _i_n_t_e_g_e_r i; print(SUM(i, 1, 4, i)) _e_n_d\n'
        return compile_case('tape %d %d' % desc, src, None, lib=b)


def main(tier):
    sp = [Undeclared(), Damage(), Truncated(), Bytes(), Names(), Delimiters(), Repeats(), Sizes(), Tapes(), Tokens()]
    return H.check('P20', sp, tier, asan=True)
