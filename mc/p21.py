"""P21: the C translation of the compiler and the Pascal original agree."""
import glob, importlib, os, re
from itertools import product
from . import harness as H, p18, p20, p13
from .p24 import plain

# ------------------------------------------------------- the common language
# The Pascal program has no tapes: library procedures are declared by the program.
DUM = {
    'PRINTTEXT': 'procedure PRINTTEXT(s); string s; ',
    'EVEN': 'integer procedure EVEN(s); value s; integer s; EVEN := s',
    'SUM': 'real procedure SUM(i, a, b, t); integer i, a, b; real t; SUM := a + b + i + t',
    'arctan': 'real procedure arctan(s); value s; real s; arctan := s',
    'FLOT': 'procedure FLOT(a, b, c); value a, b, c; integer a, b; real c; ',
    'FIXT': 'procedure FIXT(a, b, c); value a, b, c; integer a, b; real c; ',
    'ABSFIXT': 'procedure ABSFIXT(a, b, c); value a, b, c; integer a, b; real c; ',
    'XEEN': 'integer procedure XEEN(s); value s; integer s; XEEN := s',
    'RESYM': 'integer procedure RESYM; RESYM := 1',
    'PRSYM': 'procedure PRSYM(s); value s; integer s; ',
    'RANDOM': 'real procedure RANDOM; RANDOM := 1.5',
    'SETRANDOM': 'procedure SETRANDOM(s); value s; real s; ',
    'TIMEOFDAY': 'real procedure TIMEOFDAY; TIMEOFDAY := 1.5',
}
STD = 'sin|cos|ln|exp|sqrt|abs|sign|entier|read|print|TAB|NLCR|SPACE|stop'
# README, third difference: a number as actual parameter after a standard function as actual parameter
THIRD = re.compile(r'\b(%s)\b[^;]*?[,(]\s*[-+]?[0-9.\u23e8][-+0-9.\u23e8 \n]*[,)]' % STD)
# constants whose rounding was repaired
LONG = re.compile(r'[0-9][0-9. \n]{11,}|\u23e8\s*[-+]?\s*[0-9]\s*[0-9]')
OWNARR = re.compile(r'_o_w_n(?:(?!;)[\s\S])*_a_r_r_a_y')


def strings(t):
    """string contents reduced to letters (the Pascal program knows other symbols)"""
    out, q = [], 0
    for c in t:
        if c == '`':
            q += 1
            c = '`' if q == 1 else 'x'
        elif c == "'" and q:
            q -= 1
            c = "'" if q == 0 else 'x'
        elif q and not (c.isascii() and c.isalnum()):
            c = 'x'
        out.append(c)
    return ''.join(out)


def reflow(t):
    """lines of at most 255 bytes"""
    out = []
    for line in t.split('\n'):
        q = n = 0
        for c in line:
            out.append(c)
            n += len(c.encode())
            if c == '`':
                q = 1
            elif c == "'":
                q = 0
            if n > 120 and c in ' ;' and not q:
                out.append('\n')
                n = 0
        out.append('\n')
    return ''.join(out)


def common(src):
    """the programs of the common language derived from a program"""
    t = src if isinstance(src, str) else src.decode('utf-8', 'replace')
    t = strings(re.sub('(.)\u0332', r'_\1', t)).replace('\r', ' ')
    a = re.sub(r"PRINTTEXT\s*\(\s*`[^'`]*'\s*\)", 'TAB', t)
    names = lambda s: [n for n in DUM if re.search(r'\b%s\b' % n, s)]
    r = []
    if not names(a):
        r.append(a)
    n = names(t)
    if n:
        r.append(plain('begin ' + '; '.join(DUM[k] for k in n) + ';\n') + t.rstrip() + plain('\nend\n'))
    return [reflow(x) for x in r]


AFTER = re.compile(r'_e_n_d\b\s*(?!_e_n_d|_e_l_s_e)[^;\s]')


# a loop without a controlled variable: the compilers read whatever is in the store
NOVAR = re.compile(r'_f_o_r\b\s*(?![A-Za-z])')


TOK = re.compile(r"`[^']*'|(?:_[A-Za-z])+|[A-Za-z][A-Za-z0-9]*|[;()]")
SPECS = {'value', 'real', 'integer', 'Boolean', 'array', 'procedure', 'string', 'label', 'switch'}


def late_locals(t):
    """in an inner block local variables are declared after others and something else, or after a procedure
    (or arrays after a switch): repaired in the C compiler"""
    tk = [x.replace('_', ' ').strip().replace(' ', '') if x[0] == '_' else '`' if x[0] == '`' else x if x in ';()' else 'id' for x in TOK.findall(t)]
    st, k, n = [], 0, len(tk)
    start = False
    at = lambda j: tk[j] if j < n else ''
    while k < n:
        x = tk[k]
        if x == 'begin':
            st.append([0, False, False])      # scalars (1: being declared, 2: declared), procedure seen, switch seen
            start = True
            k += 1
            continue
        if x == 'end':
            if st:
                st.pop()
            start = False
        elif x == ';':
            start = True
        elif start and st:
            b = st[-1] if len(st) > 1 else [0, False, False]
            start = False
            own = x == 'own'
            if own:
                b[0] = 2 if b[0] else 0
                k += 1
                x = at(k)
            j = k + 1 if x in ('real', 'integer', 'Boolean') else k
            y = at(j)
            if j > k and y == 'id':
                if not own:
                    if b[0] == 2 or b[1]:
                        return True
                    b[0] = 1
            elif y == 'array':
                b[0] = 2 if b[0] else 0
                if not own and (b[1] or b[2]):
                    return True
            elif y == 'switch':
                b[0] = 2 if b[0] else 0
                b[2] = True
            elif y == 'procedure':
                b[1] = True
                j += 2
                if at(j) == '(':
                    while j < n and tk[j] != ')':
                        j += 1
                    j += 1
                    while at(j) == ';' and at(j + 1) in SPECS:
                        j += 1
                        while j < n and tk[j] != ';':
                            j += 1
                k = j
                continue
        k += 1
    return False


def different(t):
    """a recorded difference between the two translators concerns this program"""
    if max(len(l.encode()) for l in t.split('\n')) > 255:
        return True     # the Pascal program reads lines into a short string
    if THIRD.search(t):
        return True
    if NOVAR.search(t):
        return True
    if late_locals(t):
        return True
    if AFTER.search(t):
        return True     # comments after end (repaired)
    if LONG.search(t):
        return True
    m = OWNARR.search(t)
    if m and '_a_r_r_a_y' in t[m.end():]:
        return True
    return False


# ------------------------------------------------------------------ judging
LIST = re.compile(rb'\n\s*\d+\s+\d+\s*$')


def case(key, text, valid=True):
    """valid: the program is correct (what becomes of an incorrect program that
    the Pascal compiler accepts is not specified)"""
    files = [('p.a60', text)]
    reqs = [H.Req(['sh', '-c', 'exec x1algc p.a60 $X1ALGOL_LIB'], files, cpu=5, outmax=1 << 22),
            H.Req(['sh', '-c', 'ulimit -v 2000000; %sx1algol <p.a60' % ('exec ' if valid else 'timeout -s KILL 0.5 ')], files, cpu=20, outmax=1 << 20)]

    def judge(obs):
        c, p = obs
        if p.status == 127 or c.status == 127:
            raise RuntimeError('a compiler was not built')
        rej = (b'*** stop 0-22 ' in p.out or b'*** stop 0-23 ' in p.out) if not valid else p.status != 0 or not LIST.search(p.out)
        exp = {'status': 'not 0' if rej else 0, 'stdout': p.out.decode('utf-8', 'replace')[-400:]}
        if c.status == 0:
            if rej:
                return 'the C compiler accepts what the Pascal compiler rejects', exp
            if valid and c.out != p.out:
                k = 0
                a, b = c.out.split(b'\n'), p.out.split(b'\n')
                while k < min(len(a), len(b)) and a[k] == b[k]:
                    k += 1
                return 'different object programs', {'status': 0, 'line': k, 'C': b'|'.join(a[k:k + 3]).decode('utf-8', 'replace'),
                                                     'Pascal': b'|'.join(b[k:k + 3]).decode('utf-8', 'replace')}
        elif not rej and valid:
            return 'the C compiler rejects what the Pascal compiler accepts', exp
        return None
    return H.Case(key, reqs, judge, text, 1, 2)


# ------------------------------------------------------------------- spaces
MODS = ['p01', 'p02', 'p03', 'p05', 'p06', 'p07', 'p08', 'p09', 'p10', 'p11', 'p12', 'p13', 'p14', 'p22', 'p23', 'p24']
CORPUS = {}


def corpus(tier):
    if tier in CORPUS:
        return CORPUS[tier]
    r = [(n, s) for n, s, i in p18.PROGS]
    r += [(os.path.basename(f)[:-4], open(f).read()) for f in sorted(glob.glob(os.path.join(H.B.REPO, 'examples', '*.a60')))]
    r += [('p13 ' + p[0], p[1]) for p in p13.PROGS]
    per = 150 if tier == 'quick' else 1000
    for m in MODS:
        for sp in p18.spaces_of(importlib.import_module('mc.' + m), 'quick'):
            if sp.name == 'pairs':
                continue    # arbitrary pairs of symbols: not always a program
            ds = list(sp.descs('quick'))
            for d in ds[::max(1, len(ds) // per)]:
                try:
                    if sp.pack > 1:
                        if sp.model(d) is None:
                            continue
                        src = sp.program([d])
                    else:
                        c = sp.case(d)
                        src = dict(c.reqs[0].files)['p.a60']
                except Exception:
                    continue
                r.append(('%s %s %r' % (m, sp.name, d), src))
    out, seen = [], set()
    for n, s in r:
        for k, t in enumerate(common(s)):
            if t not in seen and not different(t):
                seen.add(t)
                out.append(('%s (%s)' % (n, 'AB'[k]), t))
    CORPUS[tier] = out
    return out


class Programs(H.Space):
    name = 'programs of the other spaces'
    rule = 'a fixed selection from the spaces of P01-P14 and P22-P24, the examples and programs with every construction, freed of library tapes: same object program'

    def descs(self, tier):
        for k in range(len(corpus(tier))):
            yield k

    def case(self, k):
        n, t = corpus(self.tier)[k]
        return case('program ' + n, t)


class Tokens(p20.Tokens):
    name = 'token sequences in a context'
    rule = 'every sequence of the tokens of a context of P20: what the Pascal compiler rejects is rejected'

    def descs(self, tier):
        k = 0
        for d in p20.Tokens.descs(self, tier):
            if len(d[1]) > 2:
                k += 1
                if k % (8 if tier == 'quick' else 2):
                    continue
            yield d

    def case(self, desc):
        ctx, tk = p20.CTX[desc[0]]
        text = (ctx % ' '.join(tk[k] for k in desc[1])).split()
        t = reflow(p20.spell(text))
        if different(t):
            return None
        return case('tokens %s %s' % (desc[0], ' '.join(tk[k] for k in desc[1])), t, False)


class Damage(p20.Damage):
    name = 'damaged programs'
    rule = 'one-token edits of the programs of P20: what the Pascal compiler rejects is rejected'

    def descs(self, tier):
        for k, d in enumerate(p20.Damage.descs(self, tier)):
            if tier != 'quick' or k % 4 == 0:
                yield d

    def case(self, desc):
        c = p20.Damage.case(self, desc)
        t = dict(c.reqs[0].files)['p.a60']
        v = [x for x in common(t) if not different(x)]
        if not v:
            return None
        return case(c.key, v[-1], False)


def main(tier):
    return H.check('P21', [Programs(), Tokens(), Damage()], tier, pascal=True)
