"""P18: observation does not change behaviour."""
import glob, importlib, os
from . import harness as H

# (module, spaces) whose programs form the corpus
MODS = ['p01', 'p02', 'p03', 'p05', 'p06', 'p07', 'p08', 'p09', 'p10', 'p11', 'p12', 'p13', 'p14', 'p22', 'p23', 'p24']
SLOW = ('palindromic_primes', 'perfect_numbers', 'sieve', 'sqrt_test', 'whetstone', 'disarium', 'time')

PROGS = [
    # every source of input, output, chance and time
    ('random', "_b_e_g_i_n _i_n_t_e_g_e_r i; _f_o_r i := 1 _s_t_e_p 1 _u_n_t_i_l 20 _d_o _b_e_g_i_n print(RANDOM); NLCR _e_n_d; SETRANDOM(0.25); print(RANDOM); NLCR; SETRANDOM(0.25); print(RANDOM) _e_n_d", ''),
    ('random first', "_b_e_g_i_n print(RANDOM) _e_n_d", ''),
    ('setrandom', "_b_e_g_i_n _r_e_a_l x; _f_o_r x := 0, 0.5, 0.999, 1⏨-9 _d_o _b_e_g_i_n SETRANDOM(x); print(RANDOM, RANDOM); NLCR _e_n_d _e_n_d", ''),
    ('copy', "_b_e_g_i_n _i_n_t_e_g_e_r s; l: s := RESYM; _i_f s ≠ 255 _t_h_e_n _b_e_g_i_n PRSYM(s); _g_o_t_o l _e_n_d _e_n_d", 'begin x := 1;\n a ≤ b ⏨ 3 `q\' _e_n_d\n\n'),
    ('read', "_b_e_g_i_n _i_n_t_e_g_e_r s; l: print(read); NLCR; _g_o_t_o l _e_n_d", '1 2.5 -3 +4⏨2 1e3 .5\n 7'),
    ('read and symbols', "_b_e_g_i_n _i_n_t_e_g_e_r s; l: print(read); s := RESYM; PRSYM(s); NLCR; _g_o_t_o l _e_n_d", '1 a 2.5 b -3 c\n'),
    ('xeen', "_b_e_g_i_n print(XEEN(7)); print(XEEN(-1)); stop; print(XEEN(63)) _e_n_d", '5\n77\n'),
    ('bad input', "_b_e_g_i_n print(1); print(read); print(2) _e_n_d", 'x'),
    ('layout', "_b_e_g_i_n TAB; SPACE(5); print(1); TAB; NLCR; FIXT(3, 2, -1.5); FLOT(5, 2, 1.5); ABSFIXT(2, 0, 3); PRINTTEXT(`a\nb `c' d') _e_n_d", ''),
    ('error', "_b_e_g_i_n _i_n_t_e_g_e_r i; print(1); i := 0; i := 1 ÷ i _e_n_d", ''),
    ('compile error', "_b_e_g_i_n x := 1 _e_n_d", ''),
    ('functions', "_b_e_g_i_n print(sqrt(2), sin(1), cos(1), arctan(1), ln(2), exp(1), entier(2.5), abs(-1), sign(-2)); print(EVEN(3)) _e_n_d", ''),
    ('unset variables', "_b_e_g_i_n _i_n_t_e_g_e_r i; _i_n_t_e_g_e_r _a_r_r_a_y a[1:3]; _p_r_o_c_e_d_u_r_e p; _b_e_g_i_n _i_n_t_e_g_e_r j; _i_n_t_e_g_e_r _a_r_r_a_y b[1:3]; j := j + 1; b[2] := 1; print(j, b[2]) _e_n_d; p; p; print(i, a[1]) _e_n_d", ''),
    ('deep', "_b_e_g_i_n _i_n_t_e_g_e_r _p_r_o_c_e_d_u_r_e f(n); _v_a_l_u_e n; _i_n_t_e_g_e_r n; f := _i_f n = 0 _t_h_e_n 0 _e_l_s_e f(n - 1) + n; print(f(300)) _e_n_d", ''),
    ('own', "_b_e_g_i_n _p_r_o_c_e_d_u_r_e p; _b_e_g_i_n _o_w_n _i_n_t_e_g_e_r i; _o_w_n _r_e_a_l _a_r_r_a_y a[1:2]; i := i + 1; a[1] := a[1] + i; print(i, a[1]); NLCR _e_n_d; p; p; p _e_n_d", ''),
]


def nested(n, kind):
    """n blocks inside each other, each with every kind of output"""
    out = 'print(j%d + 9, -10 - j%d, 0.1 × j%d, j%d = 8); FIXT(4, 1, 10.5); FLOT(5, 3, 12.5); ABSFIXT(3, 1, 17.5); PRSYM(10); SPACE(2); TAB; PRINTTEXT(`nine 9\'); NLCR; '
    s, e = '', ''
    for k in range(n):
        o = out.replace('%d', str(k))
        if kind == 'blocks':
            s += '_b_e_g_i_n _i_n_t_e_g_e_r j%d; _i_n_t_e_g_e_r _a_r_r_a_y a[1:2]; j%d := %d; a[2] := 8; ' % (k, k, k + 1) + o
            e = '; ' + o.rstrip('; ') + ' _e_n_d' + e
        else:
            s += '_b_e_g_i_n _i_n_t_e_g_e_r j%d; _p_r_o_c_e_d_u_r_e p%d; ' % (k, k)
            e = '; j%d := %d; %s p%d; %s _e_n_d' % (k, k + 1, o, k, o.rstrip('; ')) + e
    return s + 'print(9)' + e


for n in (1, 2, 4, 7, 8, 9, 10, 15, 16, 17, 24, 30):
    for kind in ('blocks', 'procedures'):
        if kind == 'blocks' or n <= 14:
            PROGS.append(('%d nested %s' % (n, kind), nested(n, kind), ''))
CORPUS = {}


def corpus(tier):
    if tier in CORPUS:
        return CORPUS[tier]
    r = []
    for n, s, i in PROGS:
        r.append((n, s, i.encode(), 'small'))
    for f in sorted(glob.glob(os.path.join(H.B.REPO, 'examples', '*.a60'))):
        n = os.path.basename(f)[:-4]
        if n in SLOW or 'TIMEOFDAY' in open(f).read():
            continue
        for inp in (b'', b'1 2 3 4 5 6 7 8 9 10 11 12 13 14 15\n', b'(car (quote (a b)))\n'):
            r.append((n, open(f).read(), inp, 'big'))
    per = 12 if tier == 'quick' else 150
    for m in MODS:
        mod = importlib.import_module('mc.' + m)
        main = mod.main
        sps = spaces_of(mod, tier)
        for sp in sps:
            ds = list(sp.descs('quick')) if not isinstance(sp.descs('quick'), list) else sp.descs('quick')
            step = max(1, len(ds) // per)
            for d in ds[::step]:
                try:
                    if sp.pack > 1:
                        mm = sp.model(d)
                        if mm is None:
                            continue
                        src, inp = sp.program([d]), b''
                    else:
                        c = sp.case(d)
                        if c is None:
                            continue
                        q = c.reqs[0]
                        if q.args[:2] != ['x1sim', 'p.a60'] or q.env:
                            continue
                        src, inp = dict(q.files)['p.a60'], H._b(q.input)
                except Exception:
                    continue
                r.append(('%s %s %r' % (m, sp.name, d), src, inp, 'small'))
    CORPUS[tier] = r
    return r


def spaces_of(mod, tier):
    """the spaces a module's check would explore"""
    got = []
    old = H.check
    try:
        H.check = lambda prop, spaces, *a, **k: got.extend(spaces) or 0
        mod.main(tier)
    finally:
        H.check = old
    for s in got:
        s.build = H.BUILD
        s.tier = tier
    return got


def merge(m, t, o):
    """is m an interleaving of t and o?"""
    pos = {0}
    lt, lo = len(t), len(o)
    if len(m) != lt + lo:
        return False
    k = 0
    while k < len(m):
        if len(pos) == 1:
            # nothing to choose until the next symbol of the output appears
            i, = pos
            p = m.find(o[i], k) if i < lo else len(m)
            p = len(m) if p < 0 else p
            if p > k:
                if m[k:p] != t[k - i:p - i]:
                    return False
                k = p
                continue
        c = m[k]
        n = set()
        for i in pos:
            if i < lo and o[i] == c:
                n.add(i + 1)
            j = k - i
            if j < lt and t[j] == c:
                n.add(i)
        if not n:
            return False
        pos = n
        k += 1
    return lo in pos


MODES = ['trace', 'debug+trace', 'debug', 'object', 'object+trace', 'twice', 'memory', 'name', 'pipe', 'compile']


class Modes(H.Space):
    name = 'modes'
    rule = 'every program of a corpus (all input/output/chance operations, the examples, a fixed selection from the spaces of P01-P14 and P22-P24, blocks and procedures nested up to 30 deep with all output operations) x {trace to file, to terminal, saved object, saved object traced, second run, other memory contents and environment, other name, pipe, repeated compilation}'

    def descs(self, tier):
        self.c = corpus(tier)
        for k, p in enumerate(self.c):
            yield k

    def case(self, k):
        n, src, inp, size = corpus(self.tier)[k]
        fl = [('p.a60', src)]
        R = lambda args, env=(), want=(), files=fl: H.Req(args, files, inp, env=env, want=want, cpu=20, outmax=1 << 24)
        sh = lambda t: ['sh', '-c', t]
        reqs = [R(['x1sim', 'p.a60'], want=['p.x1'])]
        reqs.append(R(['x1sim', '--trace=t.out', 'p.a60'], want=['p.x1', 't.out']))
        reqs.append(R(['x1sim', '-d', '--trace=t.out', 'p.a60'], want=['p.x1', 't.out']))
        reqs.append(R(['x1sim', '-d', 'p.a60'], want=['p.x1']))
        reqs.append(R(sh('x1algc p.a60 $X1ALGOL_LIB >q.x1 && exec x1sim q.x1 || { echo "Error: Fatal error in Algol compiler" >&2; exit 1; }')))
        reqs.append(R(sh('x1sim p.a60 >/dev/null 2>&1 </dev/null; exec x1sim --trace=t.out p.x1')))
        reqs.append(R(sh('x1sim p.a60 >/dev/null 2>&1 </dev/null; exec x1sim p.a60'), want=['p.x1']))
        reqs.append(R(['x1sim', 'p.a60'], env=['MALLOC_PERTURB_=165', 'GLIBC_TUNABLES=glibc.malloc.perturb=165', 'X=' + 'x' * 5000, 'LC_ALL=C.UTF-8', 'TERM=dumb'], want=['p.x1']))
        reqs.append(R(sh('mkdir -p d/e; cp p.a60 "d/e/another name.a60"; x1sim "d/e/another name.a60"; s=$?; mv "another name.x1" p.x1; exit $s'), want=['p.x1']))
        reqs.append(R(sh('x1sim p.a60 >o; s=$?; cat o | cat; exit $s'), want=['p.x1']))
        reqs.append(R(sh('x1algc p.a60 $X1ALGOL_LIB >a; s=$?; X=1234567890 x1algc ./p.a60 $X1ALGOL_LIB >b; [ $? = $s ] || exit 9; cmp -s a b || exit 8; exit 0')))

        def judge(obs):
            b = obs[0]
            exp = {'status': b.status, 'stdout': b.out.decode('utf-8', 'replace')[:1000], 'stderr': b.err.decode('utf-8', 'replace')[:300]}
            if b.status > 1:
                return None     # runaway or crash: other properties
            ob = b.files['p.x1']
            for m, o in zip(MODES, obs[1:]):
                if m == 'compile':
                    if o.status != 0:
                        return 'compiling twice gives two object programs', {}
                    continue
                if m in ('trace', 'debug+trace', 'debug', 'object+trace') and max(len(obs[k].files['t.out'] or b'') for k in (1, 2)) > 12000000:
                    continue    # the trace does not fit: no answer
                if m == 'debug':
                    if o.status != b.status or o.err != b.err:
                        return 'tracing to the terminal changes the outcome', exp
                    t = obs[2].files['t.out'] or b''
                    t = t[t.index(b'\n') + 1:] if b'\n' in t else t
                    if len(o.out) < 1500000:
                        if not merge(o.out, t, b.out):
                            return 'the terminal shows something else than the output and the trace', exp
                    continue
                if m == 'object+trace' and b.status and b'compiler' in b.err:
                    if o.status != 1:
                        return 'the object program of a failed compilation is accepted', exp
                    continue
                if o.status != b.status or o.out != b.out or o.err != b.err:
                    return 'different behaviour: ' + m, exp
                if 'p.x1' in o.files and o.files['p.x1'] != ob:
                    return 'different object program: ' + m, exp
            return None
        return H.Case('modes:%s' % n, reqs, judge, src, len(MODES) + 1, len(MODES))


def main(tier):
    return H.check('P18', [Modes()], tier)
