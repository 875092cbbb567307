"""P13: equivalent source spellings compile to the same program."""
import re
from itertools import product
from . import harness as H, algol as A

TOK = re.compile(r"(`[^`']*(?:`[^']*'[^`']*)*')|(\b(?:%s)\b)|([A-Za-z][A-Za-z0-9]*)|(\d[\d.]*|\.\d+)|(:=)|(\S)" % '|'.join(A.KEYWORDS))

# Programs in plain form; together they use every symbol and delimiter.
PROGS = [
    # name, text, input
    ('scalars', '''begin integer i, j; real x, y1; boolean b;
 i := 3; j := -i × 4; x := 2.5⏨2; y1 := x / 4 + i ↑ 2 - .5; b := i ≥ j ∧ ¬ (x ≠ y1) ∨ i = 3 ⊃ j ≤ 2;
 if b ≡ true then print(i, j, x, y1) else print(j ÷ 5); x := ⏨3 + 1⏨-2; print(x); i := j := 7; print(i × j) end''', b''),
    ('loops', '''begin integer k, s; s := 0;
 for k := 1, 4 step 2 until 9, s while s < 60 do begin s := s + k; print(k); SPACE(1) end; NLCR;
 for k := 3 step -1 until 1 do for s := k do print(s); end''', b''),
    ('procs', '''begin integer n; real r;
 procedure p(a, b); value a; integer a; real b; begin own integer c; c := a; b := b + c; print(c) end p;
 integer procedure fac(n); value n; integer n; fac := if n < 2 then 1 else n × fac(n - 1);
 real procedure h; h := 2.25;
 n := 4; r := 1.5; p(n, r); p(fac(3), r); print(r, fac(n), h) end''', b''),
    ('arrays', '''begin integer i; integer array a, b[1:3], c[0:1, -1:1]; real array d[2:4];
 procedure w(x, n); value n; integer n; integer array x; begin integer array y[1:n]; y[n] := x[n]; x[1] := y[n] + 1 end;
 for i := 1, 2, 3 do begin a[i] := i × i; d[i + 1] := a[i] / 2; b[4 - i] := a[i] end;
 c[0, -1] := a[b[3]]; w(a, 3); print(a[1], b[1], c[0, -1], d[4]) end''', b''),
    ('jumps', '''begin integer i; switch s := l1, if i > 1 then l2 else l1, l3;
 procedure q(l, t); label l; switch t; if i = 2 then goto l else goto t[3];
 i := 0; l1: i := i + 1; if i < 3 then goto s[1]; print(i); i := 2; q(l2, s); l2: print(i); i := 5; q(l2, s);
 l3: PRINTTEXT(`done; end'); if i = 5 then begin end else goto l1 end''', b''),
    ('strings', '''begin string procedure dummy; ; end''', None),
    ('text', '''begin procedure out(s, t); string s, t; begin PRINTTEXT(s); PRINTTEXT(t); TAB; PRINTTEXT(s) end;
 out(`abc  d', `x:= ;y'); out(`', `q`in'z'); NLCR; FIXT(3, 1, 2.25); FLOT(4, 1, -7); ABSFIXT(2, 0, 5) end''', b''),
    ('input', '''begin real v; integer z; v := read; z := RESYM; print(v, z, read); z := XEEN(5); print(z); stop end''', b'1.5 a2\n111\n'),
    ('names', '''begin integer abcdefghj, a, ab, aB, x9; real procedure f(g, u); real procedure g; real u; f := g(u) + g(u × 2);
 boolean procedure even(n); value n; integer n; even := n ÷ 2 × 2 = n;
 abcdefghj := 1; a := 2; ab := 3; aB := 4; x9 := 5; if even(x9) then print(0) else print(abcdefghj + a × ab × aB × x9); print(f(abs, -3), f(sqrt, 2)) end''', b''),
    ('nested', '''begin integer v; procedure o(k); value k; integer k; begin integer v; procedure i; begin v := v + k; if v < 10 then i end;
   v := k; i; print(v); begin integer v; v := 1; begin real v; v := .5; print(v) end; print(v) end end;
 v := 100; o(3); o(4); print(v) end''', b''),
    ('empty', '''begin ; ; begin end; l: ; if true then ; k: m: end''', b''),
    ('exprs', '''begin real x; integer n; boolean p, q; x := (1 + 2) × (3 - (4 / 8)) ↑ 2; n := 17 ÷ (5 - 2) - (-3); p := x > n; q := false;
 print(x, n, if p ∧ ¬ q then 1 else if q then 2 else 3, (if p then n else 0) + 1, sign(-x), entier(x), sin(0), cos(0), arctan(0), ln(1), exp(0)) end''', b''),
]
PROGS = [p for p in PROGS if p[2] is not None]

ALT = {  # doc/algol-encoding.md
    '×': ['*'], '÷': ['_:', ':̲'], '↑': ['|∧'], '≥': ['_>', '>̲', '__>'], '≤': ['_<', '<̲'], '≠': ['|=', '||='], '⊃': ['_¬'], '≡': ['_=', '=̲'], '⏨': ['@'],
    "`": ['|<'], "'": ['|>'],
}


class T:
    __slots__ = ('k', 's')

    def __init__(self, k, s):
        self.k, self.s = k, s


def tokens(text):
    r = []
    for m in TOK.finditer(text):
        k = m.lastindex
        r.append(T('S' if k == 1 else 'K' if k == 2 else 'I' if k == 3 else 'N' if k == 4 else 'O', m.group(0)))
    return r


def word(w, style):
    if style == 0:
        return ''.join('_' + c for c in w)
    if style == 1:
        return ''.join(c + '̲' for c in w)
    if style == 2:
        return ''.join('_' + c if k % 2 else c + '̲' for k, c in enumerate(w))
    if style == 3:
        return ''.join('__' + c for c in w)
    if style == 4:
        return ''.join('_' + c + '̲' for c in w)
    raise ValueError(style)


def atoms(ts):
    """list of atoms [(spelling, token index)], between any two of which layout may be inserted"""
    r = []
    for i, t in enumerate(ts):
        if t.k == 'K':
            r.append((word(t.s, 0), i))
        elif t.k in 'IN':
            r += [(c, i) for c in t.s]
        else:
            r.append((t.s, i))
    return r


def spell(ts, ats, sep=None):
    """source text; adjacent words are separated by one space"""
    out = []
    last = None
    for s, i in ats:
        if last is not None and i != last:
            a, b = ts[last].k, ts[i].k
            out.append('\n' if ts[last].s == ';' else ' ' if a in 'KIN' and b in 'KIN' else '')
        out.append(s)
        last = i
    return ''.join(out) + '\n'


FILL = [' ', '\t', '\n', '\r\n', '  \n\t']
CTEXT = ['', ' x', ' begin end', "it's `so", ' a := b + 1', '_e_n_d _i_f ', '123 .5', '\n\n two\nlines\n', ' "?| [](', ' ]:=', 'comment', '_c_o_m_m_e_n_t _x']
ETEXT = ['x', '(a part', '_f_o_r all', ']',  ' of the block', '\n', 'a1 b2 , + ( [ 3.5', ' := : "?', "it's", '`text', ' _t_h_e_n _d_o x', '_b_e_g_i_n', 'e n d']
NEWNAMES = ['z', 'Q', 'zzzzzzzzz', 'abcdefghijklmnopqrstuvwxyz', 'z0', 'Z9z9Z', 'begin', 'realarray', 'tobe']


def variants(name, tier):
    """(label, source) pairs"""
    text = [p for p in PROGS if p[0] == name][0][1]
    ts = tokens(text)
    ats = atoms(ts)

    def sp(a):
        return spell(ts, a)

    # layout: every gap x every filler; all gaps
    for g in range(len(ats) + 1):
        for f in FILL:
            a = list(ats)
            if g == len(ats):
                yield 'end %r' % f, sp(a) + f
            else:
                a[g] = (f + a[g][0], a[g][1])
                yield 'gap %d %r' % (g, f), sp(a)
    for f in FILL:
        yield 'all gaps %r' % f, sp([(f + s, i) for s, i in ats])
        yield 'all gaps of tokens %r' % f, sp([(f + s if not k or ats[k - 1][1] != i else s, i) for k, (s, i) in enumerate(ats)])
    yield 'no newline', sp(ats).rstrip('\n')
    yield 'one line', sp(ats).replace('\n', ' ')
    yield 'leading', '\n \t\n' + sp(ats)
    # spellings: each occurrence, every occurrence
    for k, (s, i) in enumerate(ats):
        t = ts[i]
        alts = []
        if t.k == 'K':
            alts = [word(t.s, z) for z in (1, 2, 3, 4)] + ([word('Boolean', z) for z in range(5)] if t.s == 'boolean' else [])
        elif t.k == 'S':
            alts = ['|<' + s[1:-1] + '|>', '|<' + s[1:], s[:-1] + '|>']
        elif t.s in ALT:
            alts = ALT[t.s]
        for z in alts:
            a = list(ats)
            a[k] = (z, i)
            yield 'spelling %d %s' % (k, z), sp(a)
    for st in (1, 2, 3, 4):
        yield 'words %d' % st, sp([(word(ts[i].s, st) if ts[i].k == 'K' else s, i) for s, i in ats])
    if 'boolean' in text:
        for st in (0, 1, 2, 3, 4):
            yield 'Boolean %d' % st, sp([(word('Boolean', st) if ts[i].s == 'boolean' else s, i) for s, i in ats])
    for n in (0, 1):
        b = []
        for s, i in ats:
            t = ts[i]
            if t.k == 'K':
                s = word('Boolean' if t.s == 'boolean' else t.s, n)
            elif t.k == 'S':
                s = '|<' + s[1:-1] + '|>'
            elif t.s in ALT:
                s = ALT[t.s][min(n, len(ALT[t.s]) - 1)]
            b.append((s, i))
        yield 'all spellings %d' % n, sp(b)
        for f in FILL:
            yield 'all spellings %d, gaps %r' % (n, f), sp([(f + s, i) for s, i in b])
    # comments after begin and ;
    for k, (s, i) in enumerate(ats):
        t = ts[i]
        if t.s in (';', 'begin'):
            for c in CTEXT:
                for w in (0, 1) if c == ' x' else (0,):
                    a = list(ats)
                    a[k] = (s + ' ' + word('comment', w) + c + ';', i)
                    yield 'comment %d %r' % (k, c), sp(a)
            a = list(ats)
            a[k] = (s + ' _c_o_m_m_e_n_t a; _c_o_m_m_e_n_t b;', i)
            yield 'two comments %d' % k, sp(a)
        if t.s == 'end':
            for c in ETEXT:
                if '_t_h_e_n' in c or '_b_e_g' in c:
                    pass
                a = list(ats)
                a[k] = (s + ' ' + c + ' ', i)
                yield 'end text %d %r' % (k, c), sp(a)
    b = []
    for s, i in ats:
        b.append((s + (' _c_o_m_m_e_n_t all; ' if ts[i].s in (';', 'begin') else ' text ' if ts[i].s == 'end' else ''), i))
    yield 'all comments', sp(b)
    # renaming of the declared identifiers
    std = set('print read TAB NLCR XEEN SPACE stop abs sign sqrt sin cos arctan ln exp entier PRINTTEXT FIXT FLOT ABSFIXT RESYM PRSYM'.split())
    ids = []
    for t in ts:
        if t.k == 'I' and t.s not in std and t.s not in ids:
            ids.append(t.s)
    for x in ids:
        for n in NEWNAMES:
            if n in ids:
                continue
            ren = [T(t.k, n if t.k == 'I' and t.s == x else t.s) for t in ts]
            yield 'rename %s %s' % (x, n), spell(ren, atoms(ren))
    for x in ids:
        for y in ids:
            if x < y:
                m = {x: y, y: x}
                ren = [T(t.k, m.get(t.s, t.s) if t.k == 'I' else t.s) for t in ts]
                yield 'swap %s %s' % (x, y), spell(ren, atoms(ren))
    for pre in ('x', 'a', 'Z', 'zq0'):
        ren = [T(t.k, pre + str(ids.index(t.s)) if t.k == 'I' and t.s in ids else t.s) for t in ts]
        yield 'all names %s' % pre, spell(ren, atoms(ren))
    if tier != 'quick':
        # two insertions at a time
        for g in range(len(ats)):
            for h in range(g + 1, len(ats)):
                a = list(ats)
                a[g] = ('\n' + a[g][0], a[g][1])
                a[h] = (' ' + a[h][0], a[h][1])
                yield 'gaps %d %d' % (g, h), sp(a)
        # every subset of the words written with the combining underline
        kw = [k for k, (s, i) in enumerate(ats) if ts[i].k == 'K']
        for x in kw:
            for y in kw:
                if x < y:
                    a = list(ats)
                    for z in (x, y):
                        a[z] = (word(ts[a[z][1]].s, 1), a[z][1])
                    yield 'words %d %d' % (x, y), sp(a)


class Spelling(H.Space):
    name = 'spelling'
    rule = 'programs covering all symbols x one change: layout (5 kinds) at every place between two characters outside strings and words, every alternative spelling of every symbol, every comment text at every place a comment may stand, text after every end, renaming of every identifier and swapping of every pair; and all changes of one kind together'

    def descs(self, tier):
        for p in PROGS:
            for k, (l, s) in enumerate(variants(p[0], tier)):
                yield p[0], l, s

    def case(self, d):
        name, label, s = d
        text, data = [(p[1], p[2]) for p in PROGS if p[0] == name][0]
        ts = tokens(text)
        base = spell(ts, atoms(ts))
        r0 = H.prog_req(base, input=data, want=['p.x1'])
        r1 = H.prog_req(s, input=data, want=['p.x1'])

        def judge(obs):
            a, b = obs
            if a.status != 0:
                return 'the program itself fails', {'status': 0}
            if (b.status, b.out, b.err) != (a.status, a.out, a.err):
                return 'the variant behaves differently', {'status': a.status, 'stdout': a.out.decode('utf-8', 'replace')}
        return H.Case('%s: %s %s' % (self.name, name, label), [r0, r1], judge, s, 2, 1)

    def describe(self, d):
        return '%s %s' % d[:2]


CHARS = list('abz') + ['A', 'Z'] + list('09') + ['+', '-', '×', '/', '÷', '↑', '>', '≥', '=', '≤', '<', '≠', '¬', '∧', '∨', '⊃', '≡', ',', '.', '⏨', ':', ';', ':=', ' ', '(', ')', '[', ']', '"', '?', '\t', '\n']


class Words(H.Space):
    name = 'words'
    rule = 'every word delimiter directly next to every symbol of the character set on either side compiles as with layout between them'
    # contexts: text with the delimiter, where {} may take layout or nothing
    CTX = ['{}begin{}print(1){}end{}', 'begin{}integer{}i;{}real{}x;{}boolean{}b;{}i:=1;x:=2;b:={}true{};{}if{}b{}then{}print(i){}else{}print(x){}end',
           'begin{}integer{}i;{}for{}i:=1{}step{}1{}until{}3{},4{}while{}i<0{}do{}print(i){}end', 'begin{}integer{}array{}a[1:2];{}own{}real{}z;{}a[1]:=5;z:=a[1];{}goto{}l;print(0);l:{}print(z){}end',
           "begin{}procedure{}p(x,y,l,s,t);{}value{}x;{}real{}x,y;{}label{}l;{}switch{}s;{}string{}t;{}begin{}PRINTTEXT(t);print(x,y);{}goto{}if{}x>1{}then{}s[1]{}else{}l{}end{};{}switch{}q:=m;p(1,2,m,q,`a');m:{}end",
           'begin{}boolean{}b;{}b:={}false{};{}if{}(b){}then{}print(1){}else{}if{}¬b{}then{}begin{}print(2){}end{}else{}print(3){};{}if{}3>2{}then{}print(4){}end']

    def descs(self, tier):
        for k, c in enumerate(self.CTX):
            n = c.count('{}')
            for g in range(n):
                for f in ['', ' ', '\t', '\n', '\r\n']:
                    for st in (0, 1, 2):
                        yield k, g, f, st
            for f in ['', '\t', '\n\n']:
                for st in (0, 1, 2, 3, 4):
                    yield k, -1, f, st

    def case(self, d):
        k, g, f, st = d
        parts = self.CTX[k].split('{}')

        def render(style, fill):
            out = ''
            for n, p in enumerate(parts):
                q = re.sub(r'\b(%s)\b' % '|'.join(A.KEYWORDS), lambda m: word(m.group(1), style), p)
                if n:
                    x = fill(n - 1)
                    # two words need layout between them
                    if x == '' and q[:1] and parts[n - 1] in A.KEYWORDS and p in A.KEYWORDS:
                        x = ' '
                    out += x
                out += q
            return out + '\n'
        base = render(0, lambda n: ' ')
        s = render(st, lambda n: f if g in (n, -1) else ' ')

        def judge(obs):
            a, b = obs
            if a.status != 0:
                return 'the program itself fails', {'status': 0}
            if (b.status, b.out, b.err) != (a.status, a.out, a.err):
                return 'the variant behaves differently', {'status': a.status, 'stdout': a.out.decode('utf-8', 'replace')}
        return H.Case('%s: %d %d %r %d' % (self.name, k, g, f, st), [H.prog_req(base), H.prog_req(s)], judge, s, 2, 1)


class Pairs(H.Space):
    name = 'pairs'
    rule = 'every pair of symbols (letters, digits, operators, delimiters, word delimiters) at every kind of place: with layout between the two the text is accepted or rejected, and compiled, exactly as without (thorough: also triples)'
    SYMS = [c for c in CHARS if c not in ' \t\n"?'] + ['begin', 'end', 'if', 'then', 'else', 'for', 'do', 'step', 'until', 'while', 'goto', 'true', 'false', 'integer', 'array', 'value', 'comment']
    CORE = list('ab09') + ['+', '-', '×', '=', ':', ';', ',', '(', ')', '[', ']', '.', '⏨', ':=', 'end', 'else', 'then']
    PLACES = ['i := {}; print(i)', 'i := 1{}2; print(i)', 'i := a[{}]', 'print({})', 'l: {}: i := 3', 'i := (b{}c)', 'begin {} end', 'begin integer array c[a{}b]; c[0] := 1; print(c[0]) end', 'begin integer array c[-5{}]; c[0] := 1; print(c[0]) end',
              'begin integer {}; i := 4 end', 'begin switch s := l{}m; goto s[1] end', 'for i := {} do print(i)', 'for i := 1{}3 do print(i)', 'if {} then print(1) else print(2)', 'p(1{}2)', 'begin procedure q(x{}y; q(1, 2) end', 'goto {}', 'i := 2{}']
    FRAME = 'begin integer i, b, c, ab, a1; integer array a[0:9]; procedure p(x, y); value x, y; integer x, y; print(x + y); i := b := c := ab := a1 := 1; a[0] := a[9] := 4; m: {}; l: end'

    def descs(self, tier):
        pl = range(len(self.PLACES))
        for k in pl:
            for x in self.SYMS:
                for y in self.SYMS:
                    if not (x == ':' and y in ('=', ':=')) and 'comment' not in (x, y):
                        yield k, (x, y)
                yield k, (x,)
        if tier == 'thorough':
            for k in pl:
                for t in product(self.CORE, repeat=3):
                    if not any(a == ':' and b in ('=', ':=') for a, b in zip(t, t[1:])):
                        yield k, t

    def case(self, d):
        k, t = d

        def render(gap):
            a, b = self.PLACES[k].split('{}')
            ws = [word(x, 0) if x in A.KEYWORDS else x for x in t]
            mid = ''
            for n, w in enumerate(ws):
                if n:
                    mid += ' ' if t[n - 1] in A.KEYWORDS and t[n] in A.KEYWORDS and gap == '' else gap
                mid += w
            u = lambda q: re.sub(r'\b(%s)\b' % '|'.join(A.KEYWORDS), lambda m: word(m.group(1), 0), q)
            f, g = self.FRAME.split('{}')
            a, b = u(a), u(b)
            # a word delimiter of the place stays apart from one of the pair
            l = ' ' if a.endswith(' ') else gap
            r = ' ' if b.startswith(' ') else gap
            return u(f) + a.rstrip(' ') + (l if a else '') + mid + (r if b else '') + b.lstrip(' ') + u(g) + '\n'
        s0, s1 = render(' '), render('')

        def judge(obs):
            x, y = obs
            if (x.status == 0) != (y.status == 0):
                return 'with and without layout: one is accepted, the other is not', {'status': x.status}
            if x.status == 0 and x.out != y.out:
                return 'with and without layout: different object programs', {'status': 0}
        return H.Case('%s: %d %s' % (self.name, k, ' '.join(t)), [H.Req(['x1algc', 'p.a60'], [('p.a60', x)]) for x in (s0, s1)], judge, s1, 2, 1)


def main(tier):
    return H.check('P13', [Spelling(), Words(), Pairs()], tier, assumptions=['two adjacent word delimiters are separated by layout, and there is no layout inside one'])
