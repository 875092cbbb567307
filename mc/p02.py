"""P02: a variable means the same wherever it is stored and however reached.

One program skeleton holds operands of every storage kind (constants, static,
own, local at three levels, value and name parameters bound to every kind of
actual, elements of static / dynamic / formal / value arrays, function
designators).  A descriptor puts one expression or one assignment at a site of
the skeleton; after an assignment every variable of the program is printed."""
from fractions import Fraction as F
from itertools import product
from . import harness as H, algol as A, num


def V(n):
    return ('v', n)


def N(n):
    return ('n', n)


def R(t):
    return ('r', t)


def S(a, *i):
    return ('s', a, [x if isinstance(x, tuple) else N(x) for x in i])


def C(f, *a):
    return ('c', f, list(a))


def pr(e):
    return ('call', 'print', [e])


NL = ('call', 'NLCR', [])
SP = ('call', 'SPACE', [N(1)])

# operand kinds visible at the innermost site: name -> expression
INTS = {
    'const': N(7), 'static': V('gi'), 'own': V('goi'), 'local1': V('li'), 'value': V('vi'),
    'name-static': V('ni'), 'name-elem': V('nax'), 'name-expr': V('ne'), 'name-const': V('nc'), 'name-dynelem': V('me'),
    'elem': S('ga', 1), 'elem-var': S('ga', V('ix')), 'elem-dyn': S('la', 2), 'elem-formal': S('na', 3),
    'elem-value': S('va', 1), 'elem2': S('gm', 1, V('ix')), 'value2': V('wi'), 'name-local': V('mi'), 'local2': V('qi'),
    'local3': V('bi'), 'fun': V('f0'), 'fun1': C('f1', N(3)), 'cond': ('p', ('if', V('gb'), V('gi'), V('li'))),
    'name-name': V('mm'), 'fun-up': V('f2'), 'name-value': V('mv'),
}
REALS = {
    'rconst': R('2.5'), 'rstatic': V('gr'), 'rlocal1': V('lr'), 'rvalue': V('vr'), 'rname-elem': V('nr'),
    'relem': S('gra', 0), 'relem-dyn': S('lra', V('ix')), 'rlocal3': V('br'), 'rfun': V('r0'), 'rname-local': V('mr'),
    'relem-value': S('vra', -1),
}
BOOLS = {
    'btrue': ('b', True), 'bstatic': V('gb'), 'blocal1': V('lb'), 'bvalue': V('vb'), 'bname': V('nb'), 'bfun': V('b0'),
    'belem': S('gba', 1), 'blocal3': V('bb'), 'bname-expr': V('nbe'),
}
TI = ['static', 'own', 'local1', 'value', 'name-static', 'name-elem', 'name-dynelem', 'elem', 'elem-var', 'elem-dyn', 'elem-formal',
      'elem-value', 'elem2', 'value2', 'name-local', 'local2', 'local3', 'name-name', 'name-value']
TR = ['rstatic', 'rlocal1', 'rvalue', 'rname-elem', 'relem', 'relem-dyn', 'rlocal3', 'rname-local', 'relem-value']
TB = ['bstatic', 'blocal1', 'bvalue', 'bname', 'belem', 'blocal3']
ALL = dict(INTS, **REALS)
ALL.update(BOOLS)


def setup():
    """statements giving every variable of the skeleton its value, per level"""
    lev0 = [(V('gi'), N(11)), (V('gi2'), N(13)), (V('gr'), R('1.25')), (V('gb'), ('b', True)), (V('goi'), N(17)), (V('ix'), N(2)),
            (S('ga', 1), N(19)), (S('ga', 2), N(-23)), (S('ga', 3), N(29)), (S('gra', -1), R('.5')), (S('gra', 0), R('6.5')),
            (S('gra', 1), R('-3.75')), (S('gm', 1, 1), N(31)), (S('gm', 1, 2), N(37)), (S('gm', 2, 1), N(41)), (S('gm', 2, 2), N(43)),
            (S('gba', 1), ('b', False)), (S('gba', 2), ('b', True))]
    lev1 = [(V('li'), N(47)), (V('lr'), R('10.5')), (V('lb'), ('b', False)), (S('la', 1), N(53)), (S('la', 2), N(-59)),
            (S('lra', 2), R('0.75')), (S('lra', 3), R('12.25')), (V('vi'), N(61)), (V('vr'), R('-1.5')), (V('vb'), ('b', True)),
            (S('va', 1), N(67)), (S('va', 2), N(71)), (S('va', 3), N(73)), (S('vra', -1), R('4.5')), (S('vra', 0), R('5.5')),
            (S('vra', 1), R('7.5'))]
    lev2 = [(V('wi'), N(79)), (V('qi'), N(83)), (V('bi'), N(89)), (V('br'), R('9.75')), (V('bb'), ('b', True))]
    return lev0, lev1, lev2


L0, L1, L2 = setup()


def assign(l):
    return [(':=', [t], e) for t, e in l]


def dump(l):
    r = []
    for t, e in l:
        if e[0] == 'b':
            r.append(('if', t, ('call', 'PRINTTEXT', [('str', ' T')]), ('call', 'PRINTTEXT', [('str', ' F')])))
        else:
            r += [SP, pr(t)]
    return r


INT, REAL, BOOL = 'integer', 'real', 'boolean'


def skeleton(body, rec=0, twin=False):
    """body: statements at the innermost site."""
    Q = ('proc', None, 'Q', [('wi', INT, True), ('mi', INT, False), ('mr', REAL, False), ('mm', INT, False), ('me', INT, False), ('mv', INT, False)],
         ('blk', [('var', INT, ['qi'])],
          [('nop',), ('blk', [('var', INT, ['bi']), ('var', REAL, ['br']), ('var', BOOL, ['bb'])],
                      assign(L2) + body)]))
    Pbody = assign(L1)
    Pbody.append(('call', 'Q', [N(1), V('li'), V('lr'), V('ni'), S('la', 1), V('vi')]))
    if rec:
        Pbody = [('if', ('o', '>', V('rd'), N(0)),
                  ('cmp', assign(L1) + [('call', 'P', [('o', '-', V('rd'), N(1)), V('li'), V('lr'), V('lb'), V('vi'), S('la', V('ix')), ('o', '+', V('li'), N(1)),
                                                      N(97), S('lra', 3), V('lb'), ('u', '¬', V('lb')), V('la2'), V('ga'), V('gra')])]
                   + dump(L1)),
                  ('cmp', Pbody))]
    P = ('proc', None, 'P',
         [('rd', INT, True), ('vi', INT, True), ('vr', REAL, True), ('vb', BOOL, True), ('ni', INT, False), ('nax', INT, False), ('ne', INT, False),
          ('nc', INT, False), ('nr', REAL, False), ('nb', BOOL, False), ('nbe', BOOL, False), ('na', 'integer array', False),
          ('va', 'integer array', True), ('vra', 'array', True)],
         ('blk', [('var', INT, ['li']), ('var', REAL, ['lr']), ('var', BOOL, ['lb']), ('arr', INT, ['la'], [(N(1), V('ix'))]),
                  ('arr', REAL, ['lra'], [(V('ix'), N(3))]), ('arr', INT, ['la2'], [(N(1), N(3))]),
                  ('proc', INT, 'f2', [], (':=', [V('f2')], ('o', '+', V('li'), N(1)))), Q],
          [(':=', [S('la2', 1)], N(101)), (':=', [S('la2', 2)], N(103)), (':=', [S('la2', 3)], N(107))] + Pbody))
    call = ('call', 'P', [N(rec), N(1), N(2), ('b', False), V('gi2'), S('ga', 2), ('o', '+', ('o', '×', V('gi'), N(2)), N(1)), N(3), S('gra', 1),
                          S('gba', 2), ('o', '<', V('gi'), V('gi2')), V('ga'), V('ga'), V('gra')])
    return ('blk', [('var', INT, ['gi', 'gi2', 'ix']), ('var', REAL, ['gr']), ('var', BOOL, ['gb']), ('own', INT, ['goi']),
                    ('arr', INT, ['ga'], [(N(1), N(3))]), ('arr', REAL, ['gra'], [(N(-1), N(1))]), ('arr', INT, ['gm'], [(N(1), N(2)), (N(1), N(2))]),
                    ('arr', BOOL, ['gba'], [(N(1), N(2))]),
                    ('proc', INT, 'f0', [], (':=', [V('f0')], N(5))),
                    ('proc', INT, 'f1', [('x', INT, True)], (':=', [V('f1')], ('o', '×', V('x'), V('gi')))),
                    ('proc', REAL, 'r0', [], (':=', [V('r0')], R('8.125'))),
                    ('proc', BOOL, 'b0', [], (':=', [V('b0')], ('b', False))),
                    ('proc', None, 'showi', [('e', INT, False)], ('cmp', [pr(V('e'))])),
                    ('proc', None, 'showr', [('e', REAL, False)], ('cmp', [pr(V('e'))])),
                    P],
            assign(L0) + [call] + (dump(L0) if rec else []))


def env_at_site():
    """Interpreter environment at the innermost site (evaluation only)."""
    cap = []

    class I2(A.Interp):
        def builtin_stmt(self, name, args, env):
            if name == 'TAB':
                cap.append(env)
            else:
                super().builtin_stmt(name, args, env)
    it = I2()
    it.run(skeleton([('call', 'TAB', [])]))
    return it, cap[0]


IT, ENV = env_at_site()


class Reads(H.Space):
    pack = 24
    name = 'operand-pairs'
    rule = 'every pair of operand storage kinds under every operator, printed directly or through a name parameter'

    def descs(self, tier):
        num_ = list(INTS) + list(REALS)
        for a in num_:
            for b in num_:
                for op in '+-×/÷↑<=':
                    if op == '÷' and (a in REALS or b in REALS):
                        continue
                    if op == '↑' and (b not in ('const', 'fun', 'name-const', 'rconst') and a not in ('const', 'fun')):
                        continue
                    for site in (0, 1):
                        yield (a, op, b, site)
        for a in BOOLS:
            for b in BOOLS:
                for op in '∧∨⊃≡':
                    yield (a, op, b, 0)

    def expr(self, d):
        return ('o', d[1], ALL[d[0]], ALL[d[2]])

    def model(self, d):
        IT.steps = 0
        IT.maxsteps = 10 ** 9
        try:
            v = IT.ev(self.expr(d), ENV)
        except A.Undef:
            return None
        except num.RefError:
            return 'error', '', 3, 2
        s = 'FT'[v] if isinstance(v, bool) else num.fmt(v)
        return 'ok', s, IT.steps, IT.steps

    def stmt(self, d):
        e = self.expr(d)
        if d[1] in '<=∧∨⊃≡':
            s = ('if', e, ('call', 'PRINTTEXT', [('str', 'T')]), ('call', 'PRINTTEXT', [('str', 'F')]))
            return [s, NL]
        if d[3] == 0:
            return [pr(e), NL]
        v = IT.ev(e, ENV) if self.model(d)[0] == 'ok' else 0
        # the name parameter's specification does not convert the value
        return [('call', 'showi' if isinstance(v, int) else 'showr', [e]), NL]

    def program(self, descs):
        b = []
        for d in descs:
            b += self.stmt(d)
        return A.source(skeleton(b))

    def describe(self, d):
        return '%s %s %s @%d' % d


class Effects(H.Space):
    pack = 1
    name = 'assignments'
    rule = 'every assignment target kind x every source kind (also multiple and in-place assignments, also beneath an older activation of the procedure), followed by a print of all variables'

    def descs(self, tier):
        src = list(INTS) + list(REALS)
        for t in TI + TR:
            for s in src:
                yield (t, None, s, 0)
                if s in ('const', 'rconst', 'name-elem', 'relem-dyn'):
                    yield (t, None, s, 2)
            for op in '+-×':
                for s in ('const', 'static', 'name-local', 'elem-dyn') + (('rlocal3',) if t in TR else ()):
                    yield (t, op, s, 0)
        for t in TI:
            for u in TI:
                yield (t, u, 'local3', 0)
                if tier != 'quick':
                    yield (t, u, 'name-expr', 1)
        for t in TR:
            for u in TR:
                yield (t, u, 'rname-elem', 0)
        for t in TB:
            for s in BOOLS:
                for rec in (0, 1):
                    yield (t, None, s, rec)
            for u in TB:
                yield (t, u, 'bfun', 0)
        for t in TI + TR:
            yield (t, None, 'fun-up', 1)

    def body(self, d):
        t, x, s, rec = d
        e = ALL[s]
        if x is None:
            st = (':=', [ALL[t]], e)
        elif len(x) == 1:
            st = (':=', [ALL[t]], ('o', x, ALL[t], e))
        else:
            st = (':=', [ALL[t], ALL[x]], e)
        return [st] + dump(L0) + [NL] + dump(L1) + [NL] + dump(L2) + [NL] + [SP, pr(V('ne')), SP, pr(V('f2')), SP, pr(V('f0'))]

    def case(self, d):
        p = skeleton(self.body(d), d[3])
        it = A.Interp()
        try:
            st, out = it.run(p)
        except A.Undef:
            return None
        src = A.source(p)
        return H.Case('assign:%s %s %s rec%d' % d, [H.prog_req(src)], H.expect_run(st, out), src, it.steps, it.steps)


class Values(H.Space):
    """the arithmetic of every storage kind on boundary values"""
    pack = 24
    name = 'boundary-values'
    rule = 'every operator x storage kind and type of the left and the right operand x pairs of boundary values'
    IV = [0, 1, -1, 2, 3, -7, 8192, -8193, 16777217, 33554433, 67108863, -67108863]
    RV = ['0.5', '-2.75', '3.0', '1.25⏨-4', '67108863.5', '-16777216.25', '549755813887.0', '3.75⏨10']
    LK = ['static', 'local', 'formal']
    RK = ['static', 'local', 'formal', 'elem', 'value', 'const', 'fun', 'own']

    def descs(self, tier):
        iv, rv = self.IV, self.RV
        lk = self.LK[:2] if tier == 'quick' else self.RK
        vals = [('i', v) for v in (iv[1::3] + [0, 67108863, 33554433, 16777217] if tier == 'quick' else iv)] + [('r', v) for v in (rv[::3] + ['67108863.5'] if tier == 'quick' else rv)]
        n = 0
        for op in '+-×/÷↑<≤=≠':
            for l in lk:
                for r in self.RK:
                    for a in vals:
                        for b in vals:
                            n += 1
                            if tier == 'quick' and op in '<≤=≠' and n % 4:
                                continue
                            if op == '↑' and b[1] not in (0, 1, -1, 2, 3, -7, '0.5', '-2.75', '3.0'):
                                continue
                            if op == '÷' and 'r' in a[0] + b[0]:
                                continue
                            yield (op, l, r, a, b)

    def lit(self, v):
        t, x = v
        x = str(x)
        e = N(int(x.lstrip('-'))) if t == 'i' else R(x.lstrip('-'))
        return ('p', ('u', '-', e)) if x[0] == '-' else e

    def model(self, d):
        op, l, r, a, b = d
        try:
            v = IT.ev(('o', op, self.lit(a), self.lit(b)), ENV)
        except A.Undef:
            return None
        except num.RefError:
            return 'error', '', 3, 2
        return 'ok', 'FT'[v] if isinstance(v, bool) else num.fmt(v), 3, 2

    def program(self, descs):
        def name(k, t, side):
            if k == 'elem':
                return '%s%s[k]' % (side + 'e', t)
            return side + {'static': 'g', 'local': 'l', 'formal': 'n', 'value': 'v', 'fun': 'f', 'own': 'o'}[k] + t
        body = []
        for op, l, r, a, b in descs:
            x = []
            for side, k, (t, v) in (('x', l, a), ('y', r, b)):
                c = str(v)
                if k == 'const':
                    x.append('(%s)' % c)
                    continue
                n = name(k, t, side)
                body.append('%s := %s' % (n if k != 'fun' else side + 'h' + t, c))
                x.append(n)
            e = '%s %s %s' % (x[0], op, x[1])
            body.append('if %s then PRINTTEXT(`T\') else PRINTTEXT(`F\')' % e if op in '<≤=≠' else 'print(%s)' % e)
            body.append('NLCR')
        ty = {'i': 'integer', 'r': 'real'}
        dec, own, par, act, spec, val, loc, fun = [], [], [], [], [], [], [], []
        for s in 'xy':
            for t in 'ir':
                dec.append('%s %sg%s, %sh%s' % (ty[t], s, t, s, t))
                own.append('own %s %so%s' % (ty[t], s, t))
                fun.append('%s procedure %sf%s; %sf%s := %sh%s' % (ty[t], s, t, s, t, s, t))
                par += ['%sn%s' % (s, t), '%sv%s' % (s, t)]
                act += ['%sm%s' % (s, t), '0']
                val.append('%sv%s' % (s, t))
                spec.append('%s %sn%s, %sv%s' % (ty[t], s, t, s, t))
                loc.append('%s %sl%s' % (ty[t], s, t))
        src = 'begin integer k; ' + '; '.join(dec) + '; ' + '; '.join('%s %sm%s' % (ty[t], s, t) for s in 'xy' for t in 'ir') + '; ' + '; '.join(own) + '; '
        src += '; '.join('%s array %se%s[1:3]' % (ty[t], s, t) for s in 'xy' for t in 'ir') + '; ' + '; '.join(fun)
        src += '; procedure P(%s); value %s; %s; begin %s; %s end; k := 2; P(%s) end' % (', '.join(par), ', '.join(val), '; '.join(spec), '; '.join(loc), ';\n'.join(body), ', '.join(act))
        from .p24 import plain
        return plain(src)

    def describe(self, d):
        return '%s %s %s %s %s' % (d[1], d[3][1], d[0], d[2], d[4][1])


class Orders(H.Space):
    name = 'declaration-orders'
    rule = 'every sequence of up to 3 (thorough: 4) declarations out of 12 kinds (integer, two integers, real, Boolean, integer array, real array of 2 dimensions, two arrays, own integer, own array, procedure with locals, procedure without, switch) x the block (procedure body, block of the main program, recursive procedure, procedure with value arrays, body of a loop, outermost block): every variable gets its own value, the procedures change those declared before them, and all are printed (a variable declared after a procedure or switch after an array or value array, in an inner block: 18 orders only, a known finding)'
    KINDS = ['i', 'ii', 'r', 'b', 'a', 'm', 'aa', 'oi', 'oa', 'p', 'q', 's']
    FEW = ['i', 'r', 'a', 'm', 'oi', 'oa', 'p']
    HOSTS = ['proc', 'block', 'rec', 'outer', 'values', 'loop']

    def descs(self, tier):
        for n in range(1, 4 if tier == 'quick' else 5):
            for d in product(self.KINDS, repeat=n):
                if sum(x in 'pqs' for x in d) == n:
                    continue
                for h in self.HOSTS:
                    if h != 'outer' and self.late(d, h):
                        if n != 3 or h != 'block' or d[0][0] not in 'am' or d[2] not in 'ia':
                            continue    # the known finding
                    elif tier == 'quick' and n == 3 and h != 'proc' and sum(self.KINDS.index(x) * (k + 1) for k, x in enumerate(d)) % 5 != self.HOSTS.index(h) - 1:
                        continue
                    yield d, h
        if tier != 'quick':
            for d in product(self.FEW, repeat=5):
                if not self.late(d):
                    yield d, 'proc'

    @staticmethod
    def late(d, host=''):
        """a variable after a procedure or switch after an array"""
        state = int(host == 'values')       # value arrays
        for x in d:
            if state == 2 and x[0] in 'irbam':
                return True
            if x in ('a', 'm', 'aa'):
                state = max(state, 1)
            elif x in 'pqs' and state:
                state = 2
        return False

    def case(self, desc):
        from .p24 import plain
        d, host = desc
        decl, cells, acts, low = [], [], [], ('1' if host == 'outer' else 'g - 6')   # cells: (text, type)
        for k, t in enumerate(d):
            x = 'x' + 'abcde'[k]
            sz = {'a': ['[1]', '[2]'], 'm': ['[1, 2]', '[1, 3]', '[2, 2]', '[2, 3]'], 'aa': ['[0]', '[1]'], 'oa': ['[-1]', '[0]']}.get(t, [''])
            if t in ('i', 'r', 'b', 'oi'):
                decl.append({'i': 'integer ', 'r': 'real ', 'b': '_B_o_o_l_e_a_n ', 'oi': 'own integer '}[t] + x)
            elif t in ('ii', 'aa'):
                decl.append('integer %s%s, y%s%s' % ('array ' if t == 'aa' else '', x, x, '[0:1]' if t == 'aa' else ''))
            elif t == 'a':
                decl.append('integer array %s[1:2]' % x)
            elif t == 'm':
                decl.append('array %s[%s:2, 2:%s]' % (x, low, '3' if host == 'outer' else 'g - 4'))
            elif t == 'oa':
                decl.append('own integer array %s[-1:0]' % x)
            elif t == 's':
                decl.append('switch %s := l%s, m%s' % (x, x, x))
                acts.append((None, 'goto %s[2]; l%s: print(999); m%s:' % (x, x, x)))
                continue
            else:
                upd = list(range(len(cells)))
                if t == 'q':
                    upd = [c for c in upd if cells[c][1] == 'i'][:1]
                st = [('%s := ¬ %s' if cells[c][1] == 'b' else '%s := %s + ' + ('100' if t == 'q' else 't + w[1]')) % (cells[c][0], cells[c][0]) for c in upd]
                if t == 'q':
                    decl.append('procedure %s; %s' % (x, st[0] if st else 'print(5)'))
                else:
                    decl.append('procedure %s; begin integer t; real u; integer array w[1:2]; t := 3; u := .5; w[1] := 8; w[2] := 9; %s print(t + u + w[1] + w[2]) end' % (x, ''.join(z + '; ' for z in st)))
                acts.append(((t, upd), x))
                continue
            for n in ([x, 'y' + x] if t in ('ii', 'aa') else [x]):
                cells += [(n + e, 'b' if t == 'b' else 'r' if t in 'rm' else 'i') for e in sz]
        out, steps = [], [0]

        def first(c, a):
            t = cells[c][1]
            return c % 2 == a % 2 if t == 'b' else F(10 * c + a) + (F(1, 2) if t == 'r' else 0)

        def show(v):
            return 'T' if v is True else 'F' if v is False else num.fmt(v)
        ini = '; '.join('%s := %s' % (n, {'b': ('true' if first(c, 1) else 'false') if host not in ('rec', 'loop') else 'k %s 2' % '=≠'[c % 2], 'r': '%d.5 + k' % (10 * c), 'i': '%d + k' % (10 * c)}[t])
                        for c, (n, t) in enumerate(cells))
        prt = '; '.join(('if %s then PRINTTEXT(`T\') else PRINTTEXT(`F\')' if t == 'b' else 'print(%s)') % n + '; SPACE(1)' for n, t in cells) + '; NLCR'
        act = ''.join(a if m is None else a + '; ' for m, a in acts)
        body = '%s; %s %s' % (ini, act, prt)
        dec = '; '.join(decl)

        def run(k):
            mem = {}
            for c in range(len(cells)):
                mem[c] = first(c, k)
            for m, a in acts:
                if m is None:
                    continue
                for c in m[1]:
                    mem[c] = (not mem[c]) if cells[c][1] == 'b' else mem[c] + (100 if m[0] == 'q' else 11)
                if m[0] == 'p':
                    out.append('20.5')
                elif not m[1]:
                    out.append('5')
            steps[0] += len(cells)
            out.append(''.join(show(mem[c]) + ' ' for c in range(len(cells))) + '\n')
            return mem
        owned = {n for n, t in cells for k, x in enumerate(d) if x in ('oi', 'oa') and n.split('[')[0] == 'x' + 'abcde'[k]}
        if host == 'outer':
            src = 'begin %s; integer k; k := 1; %s; print(k) end' % (dec, body)
            run(1)
            out.append('1')
        elif host == 'block':
            src = 'begin integer k, g; k := 1; g := 7; begin %s; %s end; print(k, g) end' % (dec, body)
            run(1)
            out.append('1 7')
        elif host == 'values':
            src = ('begin integer g; integer array h[1:2]; procedure P(v, w, k); value v, w, k; integer k; integer array v; real array w; begin %s; w[1] := 2.5 × w[1]; v[2] := v[2] - 4; %s; print(k); SPACE(1); print(v[1], v[2], w[1], w[2]) end; '
                   'g := 7; h[1] := 20; h[2] := 31; P(h, h, 1); SPACE(1); print(g, h[1], h[2]) end') % (dec, body)
            run(1)
            out.append('1 20 27 50 31 7 20 31')
        elif host == 'loop':
            src = 'begin integer k, g; g := 7; for k := 1 step 1 until 3 do begin %s; %s end; print(k, g) end' % (dec, body)
            for k in (1, 2, 3):
                run(k)
            out.append('4 7')
        elif host == 'proc':
            src = 'begin integer g; procedure P(k); value k; integer k; begin %s; %s; print(k) end; g := 7; P(1); print(g) end' % (dec, body)
            run(1)
            out.append('17')
        else:
            src = 'begin integer g; procedure P(k); integer k; begin %s; %s; if k = 1 then P(k + 1); %s; print(k) end; g := 7; P(1); print(g) end' % (dec, body, prt)
            m1 = run(1)
            m2 = run(2)
            for m, k in ((m2, 2), (m1, 1)):
                out.append(''.join(show((m2 if n in owned else m)[c]) + ' ' for c, (n, t) in enumerate(cells)) + '\n%d' % k)
            out.append('7')
        src = plain(src)
        return H.Case('%s: %s %s' % (self.name, ' '.join(d), host), [H.prog_req(src)], H.expect_run('ok', ''.join(out)), src, steps[0], steps[0])


def main(tier):
    return H.check('P02', [Reads(), Effects(), Values(), Orders()], tier,
                   assumptions=['one value per storage kind; all values distinct so that any confusion of storage is visible'])
