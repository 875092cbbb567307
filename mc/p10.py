"""P10: array elements are distinct variables with checked addressing."""
from itertools import product
from fractions import Fraction as F
from . import harness as H, algol as A, num
from .deep import Deep
from .p06 import V, N, R, op, pr, txt, SP, NL, INT, REAL
from .p07 import asg, inc, show
from .p08 import runcase

VN = ['i', 'j', 'k', 'l', 'm', 'i6', 'i7', 'i8', 'i9', 'i10']


def loops(bounds, body):
    s = body
    for v, (lo, hi) in reversed(list(zip(VN, bounds))):
        s = ('for', V(v), [('su', lo, N(1), hi)], s)
    return s


def nb(bs):
    return [(N(a), N(b)) for a, b in bs]


def el(name, n):
    return ('s', name, [V(v) for v in VN[:n]])


def code(n, base, typ):
    """distinct value of every element"""
    e = N(base)
    for v in VN[:n]:
        e = op('+', op('×', e, N(7 if n < 7 else 3)), V(v))
    if typ == REAL:
        return op('+', e, R('.25'))
    if typ == 'boolean':
        # parity of the sum
        s = V('i')
        for v in VN[1:n]:
            s = op('+', s, op('×', N(3), V(v)))
        s = op('+', s, N(base))
        return op('=', op('×', op('÷', s, N(2)), N(2)), s)
    return e


def out(name, n, typ):
    e = el(name, n)
    return ('if', e, txt('T'), txt('F')) if typ == 'boolean' else ('cmp', [SP, pr(e)])


def fillst(name, bs, base, typ):
    return loops(nb(bs), (':=', [el(name, len(bs))], code(len(bs), base, typ)))


def dump(name, bs, typ):
    return [txt(';')] + [loops(nb(bs), out(name, len(bs), typ))]


BND = [(1, 1), (0, 1), (-1, 1), (1, 3), (5, 6), (-3, -2), (-2, 2), (0, 0)]


def boxes(tier):
    r = [(b,) for b in BND + [(-7, 7), (100, 104)]]
    r += list(product(BND[:7], repeat=2))
    b3 = BND[:5] if tier == 'quick' else BND
    r += list(product(b3, repeat=3))
    r += list(product([(1, 2), (0, 1), (-1, 0), (2, 2)] if tier != 'quick' else [(1, 2), (-1, 0)], repeat=4))
    r += list(product([(1, 2), (-1, 0)], repeat=5))
    for n in range(6, 11):
        # two indices with a choice, the others fixed
        for p in range(n):
            for q in range(n):
                if p != q and (tier != 'quick' or (p + q) % n in (0, n - 1) and p in (0, 1, n // 2, n - 1)):
                    r.append(tuple((-1, 1) if k == p else (0, 1) if k == q else (2, 2) if k % 2 else (0, 0) for k in range(n)))
    return r


class Boxes(H.Space):
    name = 'boxes'
    rule = 'arrays of each type x boxes of 1-5 dimensions from 8 bound pairs, and of 6-10 dimensions with two variable indices, x place (outermost, procedure, block, own, name formal, value formal, dynamic bounds) x position in a declaration of three arrays between scalars; all elements filled, neighbours checked'
    PL = ['static', 'own', 'local', 'block', 'dyn', 'name', 'value', 'namename', 'valuevalue']

    def descs(self, tier):
        for bs in boxes(tier):
            for ty in (INT, REAL, 'boolean', None):
                for pl in self.PL:
                    if tier == 'quick' and len(bs) == 3 and ty in ('boolean', None) and sum(a for a, b in bs) % 3:
                        continue
                    if ty is None and pl == 'own' or len(bs) > 5 and pl.startswith('value'):
                        continue    # value arrays have at most 5 indices
                    yield bs, ty, pl

    def case(self, d):
        bs, ty, pl = d
        t = ty or REAL
        n = len(bs)
        arr = ('arr', ty, ['a', 'b', 'c'], nb(bs))
        other = ('arr', INT, ['p'], [(N(1), N(2))])
        last = ('arr', REAL, ['q'], [(N(-1), N(1))])
        scal = [('var', INT, ['s1'])]
        sc2 = [('var', REAL, ['s2'])]
        init = [asg('s1', N(11)), asg('s2', R('12.5'))] + [(':=', [('s', 'p', [N(k)])], N(20 + k)) for k in (1, 2)] + [(':=', [('s', 'q', [N(k)])], N(30 + k)) for k in (-1, 0, 1)]
        fill = [fillst('a', bs, 1, t), fillst('b', bs, 2, t), fillst('c', bs, 3, t)]
        # disturb one array only
        if t == 'boolean':
            dist = [loops(nb(bs), (':=', [el('b', n)], ('u', '¬', el('b', n))))]
        else:
            dist = [loops(nb(bs), (':=', [el('b', n)], op('+', el('b', n), el('c', n))))]
        end = dump('a', bs, t) + dump('b', bs, t) + dump('c', bs, t) + show(['s1', 's2']) + [SP, pr(('s', 'p', [N(1)])), SP, pr(('s', 'p', [N(2)]))] + [SP, pr(('s', 'q', [N(-1)])), SP, pr(('s', 'q', [N(0)])), SP, pr(('s', 'q', [N(1)]))]
        ctl = ('var', INT, VN[:n])
        spec = (ty + ' array') if ty else 'array'
        if pl == 'static':
            prog = ('blk', [ctl] + scal + sc2 + [other, arr, last], init + fill + dist + end)
        elif pl == 'own':
            oa = ('ownarr', ty, ['a', 'b', 'c'], nb(bs))
            # the contents survive from the first call to the second
            p = ('proc', None, 'w', [('first', 'boolean', True)], ('blk', scal + sc2 + [oa, other, last], init + [('if', V('first'), ('cmp', fill), ('cmp', dist + end))]))
            prog = ('blk', [ctl, p], [('call', 'w', [('b', True)]), ('call', 'w', [('b', False)])])
        elif pl == 'local':
            p = ('proc', None, 'w', [('x', INT, True)], ('blk', [ctl] + scal + sc2 + [other, arr, last], init + fill + dist + end + show(['x'])))
            prog = ('blk', [p], [('call', 'w', [N(4)])])
        elif pl == 'block':
            prog = ('blk', [ctl], [('blk', scal + sc2 + [other, arr, last], init + fill + dist + end), txt(','), ('blk', [('arr', ty, ['c', 'a', 'b'], nb(bs))] + sc2 + scal + [last, other] if False else sc2 + scal + [last, ('arr', ty, ['c', 'b', 'a'], nb(bs)), other], init + fill + dist + end)])
        elif pl == 'dyn':
            vs = ['u%d' % k for k in range(n)] + ['v%d' % k for k in range(n)]
            darr = ('arr', ty, ['a', 'b', 'c'], [(V('u%d' % k), op('-', V('v%d' % k), N(1))) for k in range(n)])
            blk = ('blk', scal + sc2 + [other, darr, last], [asg('u0', N(99)), asg('v0', N(-99))] + init + fill + dist + end)
            prog = ('blk', [ctl, ('var', INT, vs)], [asg('u%d' % k, N(b[0])) for k, b in enumerate(bs)] + [asg('v%d' % k, N(b[1] + 1)) for k, b in enumerate(bs)] + [blk])
        else:
            val = pl.startswith('value')
            # formal x of the procedure; the actual arrays stay in the caller
            body = [txt('(')] + dump('x', bs, t) + (dist_x(bs, t) if True else []) + dump('x', bs, t) + [txt(')')]
            procs = [('proc', None, 'w', [('y', INT, True), ('x', spec, val)], ('blk', [('var', INT, VN[:n] + ['z'])], [asg('z', N(5))] + body + show(['y', 'z'])))]
            nm = 'w'
            if pl in ('namename', 'valuevalue'):
                nm = 'w2'
                procs.append(('proc', None, 'w2', [('y', INT, True), ('x', spec, val)], ('blk', [('var', INT, VN[:n])], [('call', 'w', [N(8), V('x')])] + dump('x', bs, t))))
            prog = ('blk', [ctl] + scal + sc2 + [other, arr, last] + procs, init + fill + [('call', nm, [N(6), V('b')])] + end)
            if len(bs) % 2 == 0 or pl == 'name':
                # the same from a local array
                inner = ('proc', None, 'loc', [], ('blk', [ctl] + scal + sc2 + [other, arr, last], init + fill + [('call', nm, [N(6), V('b')])] + end))
                prog = ('blk', procs + [inner], [('call', 'loc', [])])
        return runcase(self.name, None, prog, maxsteps=60000, key='%s %s %s' % (','.join('%d:%d' % b for b in bs), ty, pl), ownarr=True)


def dist_x(bs, t):
    n = len(bs)
    if t == 'boolean':
        return [loops(nb(bs), (':=', [el('x', n)], ('u', '¬', el('x', n))))]
    return [loops(nb(bs), (':=', [el('x', n)], op('-', el('x', n), N(1))))]


class Convert(H.Space):
    name = 'value-conversion'
    rule = 'value arrays of type integer/real for actual arrays of type real/integer, 1-5 dimensions, all bound pairs, element values around ties'

    def descs(self, tier):
        for bs in boxes('quick'):
            if len(bs) > 5:
                continue
            for a, b in ((INT, REAL), (REAL, INT), (INT, INT), (REAL, REAL)):
                for place in ('static', 'local'):
                    for chain in (False, True):
                        yield bs, a, b, place, chain

    def case(self, d):
        bs, a, b, place, chain = d
        n = len(bs)
        base = code(n, 1, INT)
        e = base if a == INT else op('+', op('/', base, N(4)), R('.125'))
        if a == REAL:
            e = op('/', ('p', op('-', op('×', base, N(5)), N(9))), N(8))
        body = ('blk', [('var', INT, VN[:n])], dump('x', bs, b) + [loops(nb(bs), (':=', [el('x', n)], op('+', el('x', n), R('1.25' if b == REAL else '1'))))] + dump('x', bs, b))
        p = [('proc', None, 'w', [('x', b + ' array', True)], body)]
        nm = 'w'
        if chain:
            p.append(('proc', None, 'w2', [('x', a + ' array', True)], ('cmp', [('call', 'w', [V('x')]), ('call', 'w', [V('x')])])))
            nm = 'w2'
        ctl = ('var', INT, VN[:n])
        arr = ('arr', a, ['a'], nb(bs))
        st = [loops(nb(bs), (':=', [el('a', n)], e)), ('call', nm, [V('a')])] + dump('a', bs, a)
        if place == 'static':
            prog = ('blk', [ctl, arr] + p, st)
        else:
            prog = ('blk', p + [('proc', None, 'loc', [], ('blk', [ctl, ('var', REAL, ['z']), arr], [asg('z', N(1))] + st + show(['z'])))], [('call', 'loc', [])])
        return runcase(self.name, None, prog, maxsteps=60000, key='%s %s-%s %s %s' % (','.join('%d:%d' % x for x in bs), a, b, place, chain), ownarr=True)


class Subscript(H.Space):
    name = 'subscripts'
    rule = 'subscript expressions: integers and reals at quarter steps, nested elements, side effects, per position of 1-3 dimensions; read, write, name parameter'

    def descs(self, tier):
        qs = [F(k, 8) for k in range(-20, 21)]
        for ty in (INT, REAL):
            for pl in ('static', 'local', 'name', 'value'):
                for n in (1, 2, 3):
                    for pos in range(n):
                        for q in qs:
                            for use in ('read', 'write', 'actual'):
                                yield ty, pl, n, pos, q, use
        for ty in (INT, REAL):
            for pl in ('static', 'local', 'name', 'value'):
                for e in ('elem', 'elem2', 'call', 'if', 'self', 'neg', 'big', 'name'):
                    for use in ('read', 'write', 'actual'):
                        yield ty, pl, 1, 0, e, use
                        yield ty, pl, 2, 1, e, use

    def case(self, d):
        ty, pl, n, pos, q, use = d
        bs = [(-3, 3), (0, 2), (1, 2)][:n]
        if pos:
            bs[pos], bs[0] = bs[0], bs[pos]
        idx = [N(b[1]) for b in bs]
        if isinstance(q, F):
            r = F(abs(q))
            t = R(str(float(r)) if r.denominator > 1 else str(r.numerator) + '.0')
            idx[pos] = ('u', '-', t) if q < 0 else t
        else:
            idx[pos] = {'elem': ('s', 'z', [N(2)]), 'elem2': ('s', 'z', [('s', 'z', [N(2)])]), 'call': ('c', 'f', [N(1)]), 'if': ('if', op('>', V('g'), N(0)), N(2), N(3)),
                        'self': ('s', 'z', [('s', 'z', [('s', 'z', [N(0)])])]), 'neg': ('u', '-', V('g')), 'big': op('-', N(67108863), N(67108862)), 'name': V('g')}[q]
        e = ('s', 'x' if pl in ('name', 'value') else 'a', idx)
        if use == 'read':
            st = [SP, pr(e), SP, pr(V('g'))]
        elif use == 'write':
            st = [(':=', [e], N(777)), SP, pr(V('g'))]
        else:
            st = [('call', 'act', [e]), SP, pr(V('g'))]
        act = ('proc', None, 'act', [('y', ty, False)], ('cmp', [SP, pr(V('y')), asg('y', N(555)), SP, pr(V('y'))]))
        f = ('proc', INT, 'f', [('y', INT, True)], ('cmp', [asg('g', op('+', V('g'), N(1))), asg('f', V('y'))]))
        ctl = ('var', INT, VN[:n] + ['g'])
        z = ('arr', INT, ['z'], [(N(0), N(3))])
        arr = ('arr', ty, ['a'], nb(bs))
        init = [asg('g', N(1))] + [(':=', [('s', 'z', [N(k)])], N((k + 1) % 4)) for k in range(4)] + [fillst('a', bs, 1, ty)]
        nm = 'x' if pl in ('name', 'value') else 'a'
        end = dump(nm, bs, ty)
        if pl in ('name', 'value'):
            w = ('proc', None, 'w', [('x', ty + ' array', pl == 'value')], ('cmp', st + end))
            prog = ('blk', [ctl, z, arr, act, f, w], init + [('call', 'w', [V('a')])] + dump('a', bs, ty))
        elif pl == 'local':
            prog = ('blk', [act, ('proc', None, 'w', [], ('blk', [ctl, z, arr, f], init + st + end))], [('call', 'w', [])])
        else:
            prog = ('blk', [ctl, z, arr, act, f], init + st + end)
        return runcase(self.name, None, prog, maxsteps=60000, key='%s %s %d %d %s %s' % (ty, pl, n, pos, q, use), ownarr=True)


class Bounds(H.Space):
    name = 'out-of-bounds'
    rule = 'one-dimensional arrays of every kind x bounds x every offending subscript near the bounds and at powers of two x read/write/name parameter: run-time error'

    def descs(self, tier):
        far = [2 ** k for k in range(1, 26)] + [2 ** k + 1 for k in (14, 15, 16, 17, 20)] + [67108863, 67108862, 33554433]
        for ty in (INT, REAL, 'boolean'):
            for pl in ('static', 'own', 'local', 'block', 'name', 'value', 'namelocal', 'valuelocal', 'conv'):
                for lo, hi in ((1, 3), (0, 0), (-2, 1), (5, 9), (-9, -5), (1, 100)):
                    for off in ([1, 2, 3] if (lo, hi) != (1, 3) else [1, 2, 3] + far):
                        for x in (lo - off, hi + off):
                            if abs(x) > 67108863:
                                continue
                            for use in ('read', 'write', 'actual', 'mult') if off < 3 else ('read', 'write'):
                                yield ty, pl, lo, hi, x, use
                    for x in {lo, hi}:
                        for use in ('read', 'write', 'actual', 'mult'):
                            yield ty, pl, lo, hi, x, use

    def case(self, d):
        ty, pl, lo, hi, x, use = d
        if ty == 'boolean' and pl == 'conv':
            return None
        src = {INT: REAL, REAL: INT}.get(ty, ty) if pl == 'conv' else ty
        formal = pl in ('name', 'value', 'namelocal', 'valuelocal', 'conv')
        e = ('s', 'x' if formal else 'a', [V('g')])
        v = ('b', True) if ty == 'boolean' else N(7)
        o = (lambda z: ('if', z, txt('T'), txt('F'))) if ty == 'boolean' else (lambda z: ('cmp', [SP, pr(z)]))
        st = [txt('['), {'read': o(e), 'write': (':=', [e], v), 'actual': ('call', 'act', [e]), 'mult': (':=', [V('t'), e], v)}[use], txt(']')]
        act = ('proc', None, 'act', [('y', ty, False)], ('cmp', [o(V('y'))]))
        ctl = [('var', INT, ['g', 'i']), ('var', ty, ['t'])]
        arr = ('arr', src, ['q', 'a', 'r'], [(N(lo), N(hi))])
        fill = lambda nm: ('for', V('i'), [('su', N(lo), N(1), N(hi))], (':=', [('s', nm, [V('i')])], ('b', False) if ty == 'boolean' else V('i')))
        init = [asg('g', N(x)), fill('q'), fill('a'), fill('r')]
        w = ('proc', None, 'w', [('x', ty + ' array', pl.startswith('value') or pl == 'conv')], ('cmp', st))
        if pl == 'static':
            prog = ('blk', ctl + [arr, act], init + st)
        elif pl == 'own':
            prog = ('blk', ctl + [act], [('blk', [('ownarr', src, ['q', 'a', 'r'], [(N(lo), N(hi))])], init + st)])
        elif pl == 'local':
            prog = ('blk', [act, ('proc', None, 'loc', [], ('blk', ctl + [arr], init + st))], [('call', 'loc', [])])
        elif pl == 'block':
            prog = ('blk', ctl + [act], [asg('g', N(hi)), ('blk', [('arr', src, ['q', 'a', 'r'], [(N(lo), V('g'))])], init + st)])
        elif pl in ('name', 'value', 'conv'):
            prog = ('blk', ctl + [arr, act, w], init + [('call', 'w', [V('a')])])
        else:
            prog = ('blk', [act] + [('proc', None, 'loc', [], ('blk', ctl + [arr, w], init + [('call', 'w', [V('a')])]))], [('call', 'loc', [])])
        it = A.Interp(maxsteps=20000)
        it.checked = True
        try:
            stt, outp = it.run(prog)
        except (A.Undef, A.TooLong):
            return None
        s = A.source(prog)
        return H.Case('%s:%s %s %d:%d [%d] %s' % (self.name, ty, pl, lo, hi, x, use), [H.prog_req(s)], H.expect_run(stt, outp), s, it.steps, it.steps)


class Activations(H.Space):
    name = 'activations'
    rule = 'arrays of several blocks and recursive activations with sizes depending on the depth: every activation fills, recurs, and checks its own elements; all combinations of kinds at two nesting levels'

    def descs(self, tier):
        kinds = ['int', 'real', 'two', 'ir', 'mat', 'value', 'none', 'dyn']
        for a in kinds:
            for b in kinds:
                for lo in (1, 0, -3):
                    for dep in (1, 3) if tier == 'quick' else (1, 2, 3, 5):
                        for form in ('self', 'block', 'mutual', 'function', 'loop'):
                            yield a, b, lo, dep, form

    def decl(self, k, lo, suf):
        """declarations, list of (name, bounds, type)"""
        D = V('dep')
        b1 = (N(lo), op('+', N(lo), D))
        if k == 'int':
            return [('arr', INT, ['a' + suf], [b1])], [('a' + suf, [b1], INT)]
        if k == 'real':
            return [('arr', REAL, ['a' + suf], [b1])], [('a' + suf, [b1], REAL)]
        if k == 'two':
            return [('arr', REAL, ['a' + suf, 'b' + suf], [b1])], [('a' + suf, [b1], REAL), ('b' + suf, [b1], REAL)]
        if k == 'ir':
            return [('arr', INT, ['a' + suf], [b1]), ('arr', REAL, ['b' + suf], [(D, op('+', D, N(1)))]), ('arr', INT, ['c' + suf], [(N(1), N(2))])], \
                [('a' + suf, [b1], INT), ('b' + suf, [(D, op('+', D, N(1)))], REAL), ('c' + suf, [(N(1), N(2))], INT)]
        if k in ('mat', 'value'):
            return [('arr', INT, ['a' + suf], [b1, (N(1), N(2))])], [('a' + suf, [b1, (N(1), N(2))], INT)]
        if k == 'dyn':
            b = (op('-', N(0), D), ('if', op('>', D, N(1)), D, N(0)))
            return [('arr', INT, ['a' + suf], [b])], [('a' + suf, [b], INT)]
        return [], []

    def fd(self, arrs, base, fill):
        s = []
        for i, (nm, bs, ty) in enumerate(arrs):
            n = len(bs)
            e = el(nm, n)
            if fill:
                s.append(loops(bs, (':=', [e], op('+', op('×', code(n, base + i, ty), N(10)), V('dep')))))
            else:
                s += [txt(';'), loops(bs, ('cmp', [SP, pr(e)]))]
        return s

    def case(self, d):
        a, b, lo, dep, form = d
        d1, a1 = self.decl(a, lo, '1')
        d2, a2 = self.decl(b, lo + 1, '2')
        v = [('var', INT, ['i', 'j'])]
        rec = ('if', op('>', V('dep'), N(0)), ('call', 'p', [op('-', V('dep'), N(1))]))
        if form == 'mutual':
            rec = ('if', op('>', V('dep'), N(0)), ('call', 'q', [op('-', V('dep'), N(1))]))
        f1, o1 = self.fd(a1, 1, True), self.fd(a1, 1, False)
        f2, o2 = self.fd(a2, 4, True), self.fd(a2, 4, False)
        if form in ('self', 'mutual'):
            body = ('blk', v + d1, f1 + [('blk', v + d2, f2 + [rec] + o2)] + o1)
        elif form == 'block':
            body = ('blk', v + d1, f1 + [('blk', v + d2, f2 + o2), rec, ('blk', v + d2, f2 + [rec] + o2)] + o1)
        elif form == 'loop':
            body = ('blk', v + d1 + [], f1 + [('for', V('s'), [('su', N(1), N(1), N(2))], ('blk', v + d2, f2 + o2)), rec] + o1)
        else:
            body = ('blk', v + d1, f1 + [('blk', v + d2, f2 + [('if', op('>', V('dep'), N(0)), asg('s', op('+', N(3), ('c', 'pf', [op('-', V('dep'), N(1))])))), SP, pr(V('s'))] + o2)] + o1 + [asg('pf', op('+', V('dep'), N(50)))])
        decls = [('var', INT, ['s'])]
        if form == 'function':
            decls.append(('proc', INT, 'pf', [('dep', INT, True)], body))
            run = [asg('s', N(0)), asg('s', ('c', 'pf', [N(dep)])), SP, pr(V('s'))]
        else:
            decls.append(('proc', None, 'p', [('dep', INT, True)], body))
            if form == 'mutual':
                decls.append(('proc', None, 'q', [('dep', INT, True)], ('blk', v + d2, f2 + [('call', 'p', [V('dep')])] + o2)))
            run = [asg('s', N(0)), ('call', 'p', [N(dep)])]
        if 'value' in (a, b):
            # hand the first array of the activation over by value to a procedure
            decls.insert(1, ('proc', None, 'z', [('x', 'integer array', True), ('n', INT, True)], ('cmp', [(':=', [('s', 'x', [V('n'), N(1)])], N(-5)), SP, pr(('s', 'x', [V('n'), N(1)])), SP, pr(('s', 'x', [V('n'), N(2)]))])))
            nm, l = ('a1', lo) if a == 'value' else ('a2', lo + 1)
            k = ('call', 'z', [V(nm), N(l)])
            tgt = o1 if a == 'value' else o2
            body_l = body
            # insert before the dump of that array
            self.insert(body, tgt, k)
        prog = ('blk', decls, run)
        return runcase(self.name, d, prog, maxsteps=60000)

    def insert(self, s, tgt, k):
        if isinstance(s, tuple):
            for x in s:
                self.insert(x, tgt, k)
        elif isinstance(s, list):
            for i in range(len(s) - len(tgt) + 1):
                if tgt and all(s[i + m] is tgt[m] for m in range(len(tgt))):
                    s.insert(i, k)
                    return
            for x in list(s):
                self.insert(x, tgt, k)


class Far(H.Space):
    name = 'far-bounds'
    rule = 'arrays whose lower bounds lie at +-2^k and +-2^k-1 for all k up to 26, 1 and 2 dimensions, every place and type: fill, read back, pass by value'

    def descs(self, tier):
        lows = sorted({s * x for k in range(1, 27) for x in (2 ** k, 2 ** k - 1, 2 ** k - 4) for s in (1, -1) if abs(s * x) + 3 <= 67108863})
        for lo in lows:
            for ty in (INT, REAL):
                for pl in ('static', 'own', 'local', 'value', 'valuelocal', 'name', 'conv'):
                    for dims in (1, 2, 12) if tier != 'quick' else (1, 2):
                        yield lo, ty, pl, dims

    def case(self, d):
        lo, ty, pl, dims = d
        bs = {1: [(lo, lo + 2)], 2: [(lo, lo + 1), (-1, 0)], 12: [(1, 2), (lo, lo + 1)]}[dims]
        n = len(bs)
        formal = pl in ('value', 'valuelocal', 'name', 'conv')
        src = {INT: REAL, REAL: INT}[ty] if pl == 'conv' else ty
        arr = ('arr' if pl != 'own' else 'ownarr', src, ['q', 'a', 'r'], nb(bs))
        ctl = [('var', INT, VN[:2])]
        nm = 'x' if formal else 'a'

        def fill(m, base):
            st = []
            for k, ix in enumerate(product(*[range(a, b + 1) for a, b in bs])):
                st.append((':=', [('s', m, [N(i) for i in ix])], N(base + k)))
            return st

        def show_(m):
            st = [txt(';')]
            for ix in product(*[range(a, b + 1) for a, b in bs]):
                st += [SP, pr(('s', m, [N(i) for i in ix]))]
            return st
        init = fill('q', 10) + fill('a', 20) + fill('r', 30)
        use = show_(nm) + fill(nm, 40) + show_(nm)
        end = show_('q') + show_('a') + show_('r')
        w = ('proc', None, 'w', [('x', ty + ' array', pl != 'name')], ('cmp', use))
        body = init + ([('call', 'w', [V('a')])] if formal else use) + end
        if pl in ('static', 'value', 'name', 'conv'):
            prog = ('blk', ctl + [arr] + ([w] if formal else []), body)
        elif pl == 'own':
            prog = ('blk', ctl, [('blk', [arr], body)])
        else:
            prog = ('blk', ([w] if formal else []) + [('proc', None, 'loc', [], ('blk', ctl + [arr], body))], [('call', 'loc', [])])
        return runcase(self.name, d, prog)


def main(tier):
    return H.check('P10', [Boxes(), Convert(), Subscript(), Bounds(), Far(), Activations(), Deep([Boxes(), Convert(), Subscript(), Activations()])], tier)
