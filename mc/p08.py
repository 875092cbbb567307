"""P08: procedure calls follow the copy rule."""
from fractions import Fraction as F
from itertools import product
from . import harness as H, algol as A, num
from .deep import Deep
from .p06 import V, N, R, op, pr, txt, SP, NL, INT, REAL
from .p07 import asg, inc, show


def runcase(name, d, p, maxsteps=6000, key=None, data=None, **kw):
    it = A.Interp(maxsteps=maxsteps)
    if data is not None:
        nxt = iter(data)

        def inp(fn, a):
            if fn != 'read':
                raise ValueError(fn)
            return num.toreal(next(nxt))
        it.inp = inp
    try:
        st, out = it.run(p)
    except (A.Undef, A.TooLong):
        return None
    src = A.source(p)
    return H.Case('%s:%s' % (name, key or ' '.join(map(str, d))), [H.prog_req(src, ' '.join(map(str, data or ())).encode())], H.expect_run(st, out), src, it.steps, it.steps)


# ---------------------------------------------------------------- copy rule
ACT = {
    'g': V('g'), 'h': V('h'), 'x': V('x'), 'a[g]': ('s', 'a', [V('g')]), 'r[g]': ('s', 'r', [V('g')]), 'a[f]': ('s', 'a', [('c', 'f', [V('g')])]),
    'g+h': op('+', V('g'), V('h')), 'f(g)': ('c', 'f', [V('g')]), '3': N(3), '2.5': R('2.5'), 'e': V('e'), 'if': ('if', op('>', V('g'), N(1)), V('h'), ('s', 'a', [N(3)])),
    'l': V('l'), 'b[g]': ('s', 'b', [V('g')]), 'n': V('n'), 'v': V('v'), '(g)': ('p', V('g')),
}
VARLIKE = {'g', 'h', 'x', 'a[g]', 'r[g]', 'a[f]', 'l', 'b[g]', 'n', 'v'}
STM = {
    'a+': asg('p', op('+', V('p'), N(1))), 'a=g': asg('p', V('g')), 'b=a': asg('q', op('-', V('p'), N(1))), 'g+': asg('g', op('+', V('g'), N(1))),
    'a=q': asg('p', op('×', V('q'), N(2))), 'show': ('cmp', show(['p', 'q'])), 'l': asg('l', op('+', V('p'), V('l'))), 'mult': (':=', [V('p'), V('q')], N(2)),
    'for': ('for', V('p'), [('su', N(1), N(1), N(3))], ('cmp', [SP, pr(V('q'))])), 'swap': ('blk', [('var', REAL, ['t'])], [asg('t', V('p')), asg('p', V('q')), asg('q', V('t'))]),
    'call': ('call', 'k', [V('p'), V('q')]), 'if': ('if', op('<', V('p'), V('q')), asg('p', V('q')), asg('q', V('p'))), 'h': asg('h', N(3)),
    'idx': (':=', [('s', 'a', [V('p')])], V('q')),
}
MODES = ['nn', 'nv', 'vn', 'vv']


class Copy(H.Space):
    name = 'copy-rule'
    rule = 'procedure with two formals (name/value, integer/real) x 17x17 actuals x all bodies of up to 2 statements from a menu of 14, called from the program and from inside a procedure'

    def descs(self, tier):
        body1 = [(s,) for s in STM]
        two = [(a, b) for a in ('a+', 'g+', 'b=a', 'l', 'for', 'call') for b in ('a+', 'a=q', 'b=a', 'swap', 'mult', 'idx', 'if', 'h')] if tier == 'quick' else list(product(STM, repeat=2))
        pairs = list(product(ACT, repeat=2))
        for m in MODES:
            for ty in ('ii', 'ir', 'ri', 'rr') if tier != 'quick' else ('ii', 'ri'):
                for i, (a, b) in enumerate(pairs):
                    for bd in body1:
                        yield m, ty, a, b, bd
                    for j, bd in enumerate(two):
                        # quick: every pair of actuals meets every body for some mode and type
                        if tier == 'quick' and (i + j + MODES.index(m) * 2 + (ty == 'ri')) % 8:
                            continue
                        yield m, ty, a, b, bd

    def case(self, d):
        m, ty, a, b, bd = d
        T = {'i': INT, 'r': REAL}
        inside = any(x in ('e', 'l', 'b[g]', 'n', 'v') for x in (a, b))
        proc = ('proc', None, 'p1', [('p', T[ty[0]], m[0] == 'v'), ('q', T[ty[1]], m[1] == 'v')],
                ('blk', [('var', INT, ['l'])], [asg('l', N(40))] + show(['p', 'q']) + [STM[s] for s in bd] + show(['p', 'q', 'l'])))
        k = ('proc', None, 'k', [('s', INT, False), ('t', INT, True)], ('cmp', [asg('s', op('+', V('s'), V('t')))]))
        f = ('proc', INT, 'f', [('z', INT, True)], ('cmp', [txt('f'), asg('h', op('+', V('h'), N(1))), asg('f', V('z'))]))
        e = ('proc', INT, 'e', [], ('cmp', [txt('e'), asg('g', op('-', N(3), V('g'))), asg('e', V('h'))]))
        call = ('call', 'p1', [ACT[a], ACT[b]])
        decls = [('var', INT, ['g', 'h']), ('var', REAL, ['x']), ('arr', INT, ['a'], [(N(1), N(4))]), ('arr', REAL, ['r'], [(N(1), N(4))]), f, e, k, proc]
        init = [asg('g', N(1)), asg('h', N(2)), asg('x', R('2'))] + [(':=', [('s', 'a', [N(i)])], N(i)) for i in (1, 2, 3, 4)] + [(':=', [('s', 'r', [N(i)])], N(5 - i)) for i in (1, 2, 3, 4)]
        end = [txt('.')] + show(['g', 'h', 'x']) + sum([[SP, pr(('s', w, [N(i)]))] for i in (1, 2, 3, 4) for w in 'ar'], [])
        if inside:
            o = ('proc', None, 'o', [('n', INT, False), ('v', INT, True)], ('blk', [('var', INT, ['l']), ('arr', INT, ['b'], [(N(1), op('+', V('h'), N(2)))])],
                 [asg('l', N(2))] + [(':=', [('s', 'b', [N(i)])], N(i)) for i in (1, 2, 3, 4)] + [call] + show(['l', 'n', 'v']) + sum([[SP, pr(('s', 'b', [N(i)]))] for i in (1, 2, 3, 4)], [])))
            decls.append(o)
            call = ('call', 'o', [('s', 'a', [op('+', V('g'), N(1))]), N(3)])
        for i, x in ((0, a), (1, b)):
            if m[i] == 'n' and x not in VARLIKE and any(self.assigned(STM[s], 'pq'[i]) for s in bd):
                return None     # assignment to an expression
        if m[0] == 'n' and 'for' in bd and a not in ('g', 'h', 'x', 'l', 'v'):
            return None         # how often the address of a controlled variable is evaluated is not judged
        return runcase(self.name, None, ('blk', decls, init + [call] + end), key='%s %s %s %s %s' % (m, ty, a, b, '+'.join(bd)))

    def assigned(self, s, v):
        k = s[0]
        if k == ':=':
            return any(l == V(v) for l in s[1])
        if k == 'cmp':
            return any(self.assigned(x, v) for x in s[1])
        if k == 'blk':
            return any(self.assigned(x, v) for x in s[2])
        if k == 'if':
            return any(self.assigned(x, v) for x in s[2:])
        if k == 'for':
            return s[1] == V(v)
        if k == 'call':
            return s[1] == 'k' and s[2][0] == V(v)
        return False


# ---------------------------------------------------------------- recursion
class Recursion(H.Space):
    name = 'recursion'
    rule = 'three procedures nested in each other, each calling any visible one with one of 6 actual parameters: all call graphs, name and value mode, depth 5'

    def descs(self, tier):
        act = ['x', 'l', 'x+l', 'g', 'arr', 'f']
        vis = {'p': 'pq', 'q': 'pqr', 'r': 'pqr'}
        for mode in 'nv':
            for tp in vis['p']:
                for tq in vis['q']:
                    for tr in vis['r']:
                        for aa in product(act, repeat=3):
                            # procedures that cannot be reached do not vary
                            if 'q' not in tp and (tq != 'p' or tr != 'p' or aa[1] != 'x' or aa[2] != 'x'):
                                continue
                            if tp == 'q' and tq != 'r' and (tr != 'p' or aa[2] != 'x'):
                                continue
                            for dep in (2, 3, 4, 5) if tier == 'quick' else range(1, 9):
                                yield mode, tp, tq, tr, aa, dep
        for tree in product('pqr', repeat=3):
            for dep in (2, 3):
                yield ('tree',) + tree + (dep,)

    def case(self, d):
        if d[0] == 'tree':
            return self.tree(d)
        mode, tp, tq, tr, aa, dep = d

        def mk(nm, target, a, inner):
            l, k, x = 'l' + nm, 'k' + nm, 'x' + nm
            e = {'x': V(x), 'l': V(l), 'x+l': op('+', V(x), V(l)), 'g': V('g'), 'arr': ('s', 'a' + nm, [N(2)]), 'f': ('c', 'f', [V(l)])}[a]
            st = [asg(l, op('+', op('×', V(k), N(10)), N('pqr'.index(nm)))), (':=', [('s', 'a' + nm, [N(2)])], op('+', V(l), N(100))),
                  ('if', op('>', V(k), N(0)), ('call', target, [op('-', V(k), N(1)), e])), txt(nm)]
            st += [SP, pr(V(l)), SP, pr(V(x)), SP, pr(('s', 'a' + nm, [N(2)]))]
            if a not in ('x+l', 'f') and nm == 'p' or a == 'x':
                pass
            st += [asg('g', op('+', V('g'), N(1)))]
            return ('proc', None, nm, [(k, INT, True), (x, INT, mode == 'v')], ('blk', [('var', INT, [l]), ('arr', INT, ['a' + nm], [(N(1), op('-', N(4), V(k)) if False else N(2))])] + inner, st))
        r = mk('r', tr, aa[2], [])
        q = mk('q', tq, aa[1], [r])
        p = mk('p', tp, aa[0], [q])
        f = ('proc', INT, 'f', [('z', INT, False)], ('cmp', [asg('g', op('+', V('g'), N(2))), asg('f', op('+', V('z'), V('g')))]))
        prog = ('blk', [('var', INT, ['g']), f, p], [asg('g', N(0)), ('call', 'p', [N(dep), op('+', V('g'), N(7))]), SP, pr(V('g'))])
        return runcase(self.name, None, prog, key='%s %s%s%s %s %d' % (mode, tp, tq, tr, ','.join(aa), dep))

    def tree(self, d):
        """two recursive calls per activation with name parameters assigned through"""
        _, t1, t2, t3, dep = d

        def mk(nm, target, inner, out):
            l, k, x = 'l' + nm, 'k' + nm, 'x' + nm
            return ('proc', INT, nm, [(k, INT, True), (x, INT, False)], ('blk', [('var', INT, [l])] + inner,
                    [asg(l, V(k)), asg(x, op('+', V(x), N(1))), asg(nm, V(l)),
                     ('if', op('>', V(k), N(0)), asg(nm, op('+', ('c', target, [op('-', V(k), N(1)), V(l)]), op('×', N(3), ('c', nm, [op('-', V(k), N(1)), V(x)]))))),
                     SP, pr(V(l)), txt(nm)]))
        r = mk('r', t3, [], None)
        q = mk('q', t2, [r], None)
        p = mk('p', t1 if t1 != 'r' else 'q', [q], None)
        prog = ('blk', [('var', INT, ['g']), p], [asg('g', N(0)), SP, pr(('c', 'p', [N(dep), V('g')])), SP, pr(V('g'))])
        return runcase(self.name, d, prog)


# ---------------------------------------------------------- function values
class Functions(H.Space):
    name = 'function-values'
    rule = 'functions of each type x all bodies of up to 3 steps (assignments in branches, loops, blocks, inner procedures, recursion, jumps) x use (operand, statement, actual by name/value, subscript, index, condition)'
    B = ['one', 'two', 'branch', 'loop', 'block', 'inner', 'rec', 'jump', 'other', 'self', 'proc', 'arr', 'multi', 'multiblock', 'multifor', 'multiin']

    def descs(self, tier):
        for ty in ('integer', 'real', 'boolean'):
            for n in (1, 2) if tier == 'quick' else (1, 2, 3):
                for b in product(self.B, repeat=n):
                    for u in ('operand', 'right', 'stmt', 'name', 'value', 'sub', 'cond', 'twice', 'own'):
                        yield ty, b, u

    def case(self, d):
        ty, b, u = d
        boo = ty == 'boolean'

        def val(k):
            if boo:
                return ('o', '=', op('+', V('k'), N(k % 3)), N(2))
            return op('+', V('k'), N(k) if ty == 'integer' else R('%d.5' % k))
        F = V('f')
        dec, st = [('var', INT, ['i'])], []
        for j, x in enumerate(b):
            v = val(j + 1)
            if x == 'one':
                st.append((':=', [F], v))
            elif x == 'two':
                st += [(':=', [F], v), (':=', [F], val(j + 5))]
            elif x == 'branch':
                st.append(('if', op('>', V('k'), N(1)), (':=', [F], v), (':=', [F], val(j + 3))))
            elif x == 'loop':
                st.append(('for', V('i'), [('su', N(1), N(1), V('k')), ('e', N(9))], (':=', [F], v if boo else op('+', v, V('i')))))
            elif x == 'block':
                st.append(('blk', [('var', ty, ['t']), ('arr', INT, ['w'], [(N(1), N(2))])], [asg('t', v), (':=', [('s', 'w', [N(1)])], N(3)), (':=', [F], V('t'))]))
            elif x == 'inner':
                dec.append(('proc', None, 'in%d' % j, [], ('blk', [('var', INT, ['k'])], [asg('k', N(7)), (':=', [F], v)])))
                st.append(('call', 'in%d' % j, []))
            elif x == 'rec':
                c = ('c', 'f', [op('-', V('k'), N(1))])
                st.append(('if', op('>', V('k'), N(0)), (':=', [F], ('u', '¬', c) if boo else op('+', c, N(10))), (':=', [F], v)))
            elif x == 'jump':
                st += [(':=', [F], v), ('if', op('>', V('k'), N(0)), ('goto', V('z'))), (':=', [F], val(8))]
            elif x == 'other':
                st += [(':=', [F], ('if', ('c', 'h', [V('k')]), v, v) if boo else op('+', ('c', 'h', [V('k')]), v))]
            elif x == 'self':
                st += [(':=', [F], v), ('if', op('>', V('k'), N(0)), ('call', 'f', [op('-', V('k'), N(1))]))]
            elif x == 'proc':
                # a function whose value is assigned through a name parameter elsewhere
                st += [('call', 'set', [V('l')]), (':=', [F], ('o', '=', V('l'), N(5)) if boo else V('l'))]
            elif x == 'arr':
                st += [(':=', [('s', 'a', [op('+', V('k'), N(1))])], op('+', V('k'), N(1))), (':=', [F], ('o', '=', ('s', 'a', [N(1)]), N(1)) if boo else ('s', 'a', [op('+', V('k'), N(1))]))]
            elif x == 'multi':
                dec.append(('var', ty, ['m%d' % j]))
                st += [(':=', [V('m%d' % j), F], v), txt('m')] + ([] if boo else [SP, pr(V('m%d' % j))])
            elif x == 'multiblock':
                # the value is stored from a block inside, with more assignments to the left and right
                dec.append(('var', ty, ['m%d' % j]))
                st += [('blk', [('var', ty, ['t'])], [('blk', [('var', ty, ['u'])], [asg('u', v), (':=', [V('m%d' % j), F, V('t')], V('u'))])]), txt('b')] + ([] if boo else [SP, pr(V('m%d' % j))])
            elif x == 'multifor':
                st.append(('for', V('i'), [('su', N(1), N(1), V('k')), ('e', N(4))], ('blk', [('var', ty, ['t'])], [(':=', [F, V('t')], v), (':=', [V('t'), F], v)])))
            elif x == 'multiin':
                dec.append(('var', ty, ['m%d' % j]))
                dec.append(('proc', None, 'iq%d' % j, [('q', ty, False)], ('blk', [('var', ty, ['t'])], [(':=', [V('t'), F, V('q')], v), (':=', [F, V('t')], V('q'))])))
                st += [('call', 'iq%d' % j, [V('m%d' % j)])]
        st.append(('lab', 'z', ('nop',)))
        # the X1 system wants variables declared before procedures
        dec.sort(key=lambda x: x[0] == 'proc')
        f = ('proc', ty, 'f', [('k', INT, True)], ('blk', dec, st))
        h = ('proc', 'boolean' if boo else REAL if ty == 'real' else INT, 'h', [('y', INT, False)], asg('h', op('>', V('y'), N(0)) if boo else op('×', V('y'), N(2))))
        s = ('proc', None, 'set', [('y', INT, False)], asg('y', N(5)))
        call = ('c', 'f', [N(2)])
        T = ty
        out = lambda e: [SP, pr(('if', e, N(1), N(0)) if boo else e)]
        idx = ('proc', INT, 'lim', [('y', T, False)], asg('lim', ('if', V('y'), N(1), N(2)) if boo else ('if', op('>', V('y'), N(3)), N(2), N(1))))
        nm = ('proc', None, 'nm', [('y', T, False)], ('cmp', out(V('y')) + out(V('y'))))
        vl = ('proc', None, 'vl', [('y', T, True)], ('cmp', out(V('y')) + out(V('y'))))
        use = {'operand': out(op('∧', call, ('b', True)) if boo else op('+', call, N(1))), 'right': out(op('≡', ('b', False), call) if boo else op('-', N(1), op('×', N(2), call))),
               'stmt': [('call', 'f', [N(2)]), ('call', 'f', [N(1)])], 'name': [('call', 'nm', [call])], 'value': [('call', 'vl', [call])],
               'sub': out(op('=', ('s', 'a', [('c', 'lim', [call])]), N(1)) if boo else ('s', 'a', [('c', 'lim', [call])])),
               'cond': [('if', call if boo else op('>', call, N(3)), txt('Y'), txt('N'))], 'twice': out(op('≡', call, ('c', 'f', [N(1)])) if boo else op('-', call, ('c', 'f', [N(1)]))),
               'own': [('for', V('j'), [('su', N(0), N(1), N(2))], ('cmp', out(('c', 'f', [V('j')]))))]}[u]
        prog = ('blk', [('var', INT, ['l', 'j']), ('arr', INT, ['a'], [(N(0), N(12))]), h, s, f, idx, nm, vl],
                [asg('l', N(0)), ('for', V('j'), [('su', N(0), N(1), N(12))], (':=', [('s', 'a', [V('j')])], V('j')))] + use +
                [txt('.'), SP, pr(V('l')), SP, pr(('s', 'a', [N(3)]))])
        return runcase(self.name, None, prog, key='%s %s %s' % (ty, '+'.join(b), u))


# ------------------------------------------------------------ Jensen's device
class Jensen(H.Space):
    name = 'jensen'
    rule = "Jensen's device: all summand expressions of a menu x controlled variables x nesting of the sum in itself up to depth 3"

    def descs(self, tier):
        for v in ('i', 'a[1]', 'l'):
            for e in ('v', 'v2', 'arr', 'const', 'sum', 'sum2', 'call', 'sumsum', 'inner'):
                for lo, hi in ((1, 3), (3, 1), (0, 0), (-1, 2)):
                    for m in ('lib', 'own'):
                        yield v, e, lo, hi, m

    def case(self, d):
        v, e, lo, hi, m = d
        if m == 'lib' and e != 'v':
            pass
        x = {'i': V('i'), 'a[1]': ('s', 'a', [N(1)]), 'l': V('l')}[v]
        S = 'sum'
        j, k = V('j'), V('k')

        def sm(w, a, b, ex):
            return ('c', S, [w, a, b, ex])
        ex = {'v': x, 'v2': op('×', x, x), 'arr': ('s', 'b', [x]), 'const': N(4), 'sum': sm(j, N(1), x, op('×', j, x)), 'sum2': sm(j, x, N(3), ('s', 'b', [j])),
              'call': ('c', 'sq', [x]), 'sumsum': sm(j, N(1), N(2), sm(k, N(1), j, op('+', op('×', x, j), k))), 'inner': sm(x, N(1), N(2), x)}[e]
        if e == 'inner':
            return None
        sp = [('k', INT, False), ('a', INT, False), ('b', INT, False), ('x', REAL, False)]
        if m == 'own':
            body = ('blk', [('var', REAL, ['s'])], [asg('s', N(0)), ('for', V('k'), [('su', V('a'), N(1), V('b'))], asg('s', op('+', V('s'), V('x')))), asg('sum', V('s'))])
        else:
            # recursive formulation
            body = ('if', op('>', V('a'), V('b')), asg('sum', N(0)), ('cmp', [asg('k', V('a')), asg('sum', op('+', V('x'), ('c', 'sum', [V('k'), op('+', V('a'), N(1)), V('b'), V('x')])))]))
        sq = ('proc', REAL, 'sq', [('y', REAL, False)], asg('sq', op('×', V('y'), V('y'))))
        sumd = ('proc', REAL, 'sum', sp, body)
        use = [SP, pr(sm(x, N(lo), N(hi), ex)), SP, pr(op('+', sm(x, N(lo), N(hi), ex), sm(x, N(1), N(2), x)))]
        p = ('proc', None, 'o', [], ('blk', [('var', INT, ['l'])], use))
        init = [asg('i', N(0)), ('for', V('i'), [('su', N(-2), N(1), N(5))], (':=', [('s', 'b', [V('i')])], op('+', V('i'), N(10)))), (':=', [('s', 'a', [N(1)])], N(0))]
        decl = [('var', INT, ['i', 'j', 'k']), ('arr', INT, ['a'], [(N(1), N(2))]), ('arr', INT, ['b'], [(N(-2), N(5))]), sq, sumd]
        prog = ('blk', decl + ([p] if v == 'l' else []), init + ([('call', 'o', [])] if v == 'l' else use))
        return runcase(self.name, d, prog)


# ------------------------------------------------------------- environments
class Environments(H.Space):
    name = 'environments'
    rule = 'a recursive procedure with procedures or blocks nested in it to 4 levels, whose inner procedure is called by another activation (passed down, passed through an outer procedure, called by a function): every actual parameter of every level, every host that uses it (at its own level, from procedures nested in it, from a deeper activation of itself, handed on), every depth'
    # the inner levels: P a procedure, B a block
    SHAPES = ['P', 'PP', 'PPP', 'BP', 'PB', 'PBP', 'PPB', 'BPP']
    HOSTS = ['use', 'val', 'n1', 'n2', 'b2', 'rec', 'on', 'on2', 'onloc', 'fun']
    BOTTOM = ['f', 'run(f)', 'b', 'run(b)', 'back(f)', 'fn(f)']

    def descs(self, tier):
        for sh in self.SHAPES:
            n = len(sh)
            acts = ['v%d' % i for i in range(n + 1)] + ['e%d' % i for i in range(n + 1)] + ['k', 'x%d' % n, 's']
            for host in self.HOSTS:
                for act in acts:
                    if act == 's' and host == 'rec':
                        continue
                    for bot in self.BOTTOM:
                        for pas in 'bf':
                            for dep in ((1, 2) if tier == 'quick' else (0, 1, 2, 3)):
                                yield sh, host, act, bot, pas, dep

    def case(self, d):
        sh, host, act, bot, pas, dep = d
        n = len(sh)
        x = V('x')
        use = ('proc', None, 'use', [('x', INT, False)], ('cmp', [asg('x', op('+', x, N(1))), SP, pr(x)]))
        val = ('proc', None, 'val', [('x', INT, True)], ('blk', [('var', INT, ['q'])], [asg('q', x), asg('x', op('+', x, N(5))), SP, pr(x), SP, pr(V('q'))]))
        w = lambda nm, c, inner, st: ('proc', None, nm, [], ('blk', [('var', INT, ['w'])] + inner, [asg('w', N(c))] + st + [SP, pr(V('w'))]))
        leaf = [asg('x', op('+', x, V('w'))), SP, pr(x)]
        n1 = ('proc', None, 'n1', [('x', INT, False)], ('cmp', []) if False else ('blk', [('var', INT, ['y']), w('m1', 7, [], leaf)], [asg('y', N(70)), ('call', 'm1', []), SP, pr(V('y'))]))
        n2 = ('proc', None, 'n2', [('x', INT, False)], ('blk', [('var', INT, ['y']), w('m1', 7, [w('m2', 8, [w('m3', 9, [], leaf)], [('call', 'm3', [])])], [('call', 'm2', [])])], [asg('y', N(70)), ('call', 'm1', []), SP, pr(x)]))
        b2 = ('proc', None, 'b2', [('x', INT, False)], ('blk', [('var', INT, ['y'])], [asg('y', N(40)), ('blk', [('var', INT, ['w'])], [asg('w', N(41)), ('blk', [('var', INT, ['u'])], [asg('u', N(2))] + leaf + [SP, pr(V('u'))])]), SP, pr(V('y'))]))
        rec = ('proc', None, 'rec', [('j', INT, True), ('x', INT, False)], ('blk', [('var', INT, ['w'])], [asg('w', V('j')), ('if', op('>', V('j'), N(0)), ('call', 'rec', [op('-', V('j'), N(1)), x]), ('cmp', leaf)), SP, pr(V('w'))]))
        on = ('proc', None, 'on', [('x', INT, False)], ('cmp', [('call', 'n1', [x]), ('call', 'use', [x])]))
        on2 = ('proc', None, 'on2', [('x', INT, False)], ('blk', [('var', INT, ['w']), ('proc', None, 'i1', [('y', INT, False)], ('cmp', [('call', 'n2', [x]), ('call', 'use', [V('y')]), ('call', 'on', [V('y')])]))], [asg('w', N(3)), ('call', 'i1', [x]), SP, pr(V('w'))]))
        # its own variable and the formal both go on
        onloc = ('proc', None, 'onloc', [('x', INT, False)], ('blk', [('var', INT, ['w']), ('proc', None, 'i1', [('y', INT, False), ('z', INT, False)], ('cmp', [('call', 'use', [V('y')]), ('call', 'use', [V('z')]), asg('y', op('+', V('y'), V('z')))]))],
                 [asg('w', N(3)), ('call', 'i1', [V('w'), x]), ('call', 'i1', [x, V('w')]), SP, pr(V('w'))]))
        fun = ('proc', INT, 'fun', [('x', INT, False)], ('blk', [('var', INT, ['w'])], [asg('w', x), asg('x', op('+', x, N(2))), asg('fun', op('+', op('×', V('w'), N(10)), x))]))
        run = ('proc', None, 'run', [('f', 'procedure', False)], ('blk', [('var', INT, ['w'])], [asg('w', N(55)), ('call', 'f', []), SP, pr(V('w'))]))
        back = ('proc', None, 'back', [('f', 'procedure', False)], ('blk', [('var', INT, ['w']), ('proc', None, 'i1', [], ('blk', [('var', INT, ['u'])], [asg('u', N(66)), ('call', 'run', [V('f')]), SP, pr(V('u'))]))], [asg('w', N(56)), ('call', 'i1', []), SP, pr(V('w'))]))
        fn = ('proc', INT, 'fn', [('f', 'procedure', False)], ('blk', [('var', INT, ['w'])], [asg('w', N(4)), ('call', 'f', []), asg('fn', V('w'))]))
        a = {'s': op('+', V('v0'), V('v%d' % n)), 'k': V('k')}.get(act) or (('s', 'e' + act[1], [N(2)]) if act[0] == 'e' else V(act) if act[0] == 'v' else V('k'))
        if act == 's' and host not in ('val',):
            # an expression is not assigned to: the host gets it through a value parameter
            a0, host0 = a, host
            inner_call = ('blk', [('var', INT, ['t']), ('proc', None, 'pv', [('x', INT, False)], asg('t', op('+', x, x)))], [asg('t', N(0)), ('call', 'pv', [a0]), self.use(host0, V('t'))])
        else:
            inner_call = self.use(host, a)

        def level(i):
            """(declarations, statements) inside level i"""
            dec = [('var', INT, ['v%d' % i]), ('arr', INT, ['e%d' % i], [(N(1), N(2))])]
            st = [asg('v%d' % i, op('+', op('×', V('k'), N(100)), N(10 * i))), (':=', [('s', 'e%d' % i, [N(2)])], op('+', op('×', V('k'), N(1000)), N(i)))]
            end = [SP, pr(V('v%d' % i)), SP, pr(('s', 'e%d' % i, [N(2)]))]
            if i == n:
                return dec, st + [inner_call] + end
            d2, s2 = level(i + 1)
            if sh[i] == 'P':
                nm = 'c%d' % i if i else 'b'
                p = ('proc', None, nm, [], ('blk', d2, s2))
                if i == 0:
                    return dec + [p], st
                return dec + [p], st + [('call', nm, [])] + end
            if i == 0:
                return dec + [('proc', None, 'b', [], ('blk', [('var', INT, ['u'])], [asg('u', N(1)), ('blk', d2, s2), SP, pr(V('u'))]))], st
            return dec, st + [('blk', d2, s2)] + end
        dec, st = level(0)
        bots = {'f': ('call', 'f', []), 'b': ('call', 'b', []), 'run(f)': ('call', 'run', [V('f')]), 'run(b)': ('call', 'run', [V('b')]), 'back(f)': ('call', 'back', [V('f')]), 'fn(f)': ('cmp', [SP, pr(('c', 'fn', [V('f')]))])}
        body = st + [('if', op('>', V('k'), N(0)), ('call', 'a', [op('-', V('k'), N(1)), V(pas)]), bots[bot]), txt('/'), SP, pr(V('v0')), SP, pr(('s', 'e0', [N(2)])), SP, pr(V('k'))]
        ap = ('proc', None, 'a', [('k', INT, True), ('f', 'procedure', False)], ('blk', dec, body))
        nil = ('proc', None, 'nil', [], txt('nil'))
        prog = ('blk', [use, val, n1, n2, b2, rec, on, on2, onloc, fun, run, back, fn, ap, nil], [('call', 'a', [N(dep), V('nil')])])
        return runcase(self.name, d, prog)

    def use(self, host, a):
        if host == 'rec':
            return ('call', 'rec', [N(2), a])
        if host == 'fun':
            return ('cmp', [SP, pr(op('+', a, ('c', 'fun', [a])))])
        return ('call', host, [a])


class Own(H.Space):
    name = 'own'
    rule = 'own variables and own arrays are one variable for all activations of their block, with the values they had at its last exit: all orders of up to 2 (quick) or 3 scalars out of {own integer, own real, own Boolean, local integer, local real} and up to 2 arrays out of {own integer, own real of 1 and 2 dimensions, local} x the block (procedure body, block in a procedure, block of the main program, function) x all (quick: chosen) sequences of 4 entries, also recursive and of two procedures that declare the same names, x updates directly, through name parameters and through array parameters; variables declared beside them keep their values'
    SC = ['oi', 'or', 'ob', 'li', 'lr']
    AR = ['ai', 'ar', 'am', 'la']
    DECL = {'oi': '_o_w_n _i_n_t_e_g_e_r {}', 'or': '_o_w_n _r_e_a_l {}', 'ob': '_o_w_n _B_o_o_l_e_a_n {}', 'li': '_i_n_t_e_g_e_r {}', 'lr': '_r_e_a_l {}',
            'ai': '_o_w_n _i_n_t_e_g_e_r _a_r_r_a_y {}[-1:1]', 'ar': '_o_w_n _r_e_a_l _a_r_r_a_y {}[2:3]', 'am': '_o_w_n _i_n_t_e_g_e_r _a_r_r_a_y {}[0:1, 5:6]', 'la': '_i_n_t_e_g_e_r _a_r_r_a_y {}[1:2]'}
    ELTS = {'ai': ['[-1]', '[0]', '[1]'], 'ar': ['[2]', '[3]'], 'am': ['[0, 5]', '[0, 6]', '[1, 5]', '[1, 6]'], 'la': ['[1]', '[2]']}
    HELP = ('_p_r_o_c_e_d_u_r_e inci(v, d); _v_a_l_u_e d; _i_n_t_e_g_e_r v, d; v := v + d; _p_r_o_c_e_d_u_r_e incr(v, d); _v_a_l_u_e d; _r_e_a_l v, d; v := v + d; '
            '_p_r_o_c_e_d_u_r_e neg(v); _B_o_o_l_e_a_n v; v := ¬ v; '
            '_p_r_o_c_e_d_u_r_e ial(a, k, d); _v_a_l_u_e k, d; _i_n_t_e_g_e_r k, d; _i_n_t_e_g_e_r _a_r_r_a_y a; a[k] := a[k] + d; '
            '_p_r_o_c_e_d_u_r_e ral(a, k, d); _v_a_l_u_e k, d; _i_n_t_e_g_e_r k; _r_e_a_l d; _r_e_a_l _a_r_r_a_y a; a[k] := a[k] + d; '
            '_p_r_o_c_e_d_u_r_e iam(a, k, m, d); _v_a_l_u_e k, m, d; _i_n_t_e_g_e_r k, m, d; _i_n_t_e_g_e_r _a_r_r_a_y a; a[k, m] := a[k, m] + d; ')

    def descs(self, tier):
        q = tier == 'quick'
        sets = []
        for n in range(0, 3 if q else 4):
            for sc in product(self.SC, repeat=n):
                for m in range(0, 3):
                    for ar in product(self.AR, repeat=m):
                        d = sc + ar
                        if any(x[0] != 'l' for x in d) and len(set(d)) == len(d):
                            sets.append(d)
        for k, d in enumerate(sets):
            for host in ('proc', 'block', 'main', 'fun'):
                for via in range(3):
                    if q:
                        yield d, host, via, 'p1p1' if host == 'main' else ('p1p2q1p3', 'p2q2p1q1', 'q1p1p1q3')[(k + via) % 3]
                    elif len(d) <= 3:
                        for c in product('pq', '12', 'pq', '13', 'pq', '1', 'pq', '2') if host != 'main' else [('p1' * 4,)]:
                            yield d, host, via, ''.join(c)
                    else:
                        yield d, host, via, 'p1' * 3 if host == 'main' else ('p1p2q1p3', 'p2q2p1q1', 'q1p1p1q3')[(k + via) % 3]

    # the activation: text and model
    def text(self, d, via, names, k, flag):
        decls = '; '.join(self.DECL[t].format(n) for t, n in zip(d, names))
        ini, upd, prt = [], [], []
        for t, n in zip(d, names):
            tgt = []
            for j, e in enumerate(self.ELTS.get(t, [''])):
                v = n + e
                tgt.append(v)
                own = t not in ('li', 'lr', 'la')
                bl, rl = t == 'ob', t in ('or', 'lr', 'ar')
                (ini if own else upd).append('%s := %s' % (v, ('_t_r_u_e' if bl else '.25' if rl else str(10 * j + 1))))
                if bl:
                    upd.append(('%s := ¬ %s' % (v, v), 'neg(%s)' % v, 'neg(%s)' % v)[via])
                else:
                    dl = '%s %s %d' % (k, '/' if rl else '×', 2 + 2 * j)
                    if via == 0:
                        upd.append('%s := %s + %s' % (v, v, dl))
                    elif via == 1 or not e:
                        upd.append('inc%s(%s, %s)' % ('r' if rl else 'i', v, dl))
                    else:
                        upd.append('%s(%s, %s, %s)' % ('ral' if rl else 'iam' if t == 'am' else 'ial', n, e[1:-1], dl))
                prt.append(('_i_f %s _t_h_e_n PRINTTEXT(`T\') _e_l_s_e PRINTTEXT(`F\')' % v if bl else 'print(%s)' % v) + '; SPACE(1)')
        prt = '; '.join(prt) + '; NLCR'
        return decls, '_i_f %s _t_h_e_n _b_e_g_i_n %s; %s := _f_a_l_s_e _e_n_d; %s; %s' % (flag, '; '.join(ini), flag, '; '.join(upd), prt), prt

    def case(self, desc):
        d, host, via, calls = desc
        names = ['va', 'vb', 'vc', 'vd', 've'][:len(d)]
        dec, body, prt = self.text(d, via, names, 'k', 'fp')
        if host == 'main':
            src = '_b_e_g_i_n _i_n_t_e_g_e_r k, g; _r_e_a_l h; _B_o_o_l_e_a_n fp; _i_n_t_e_g_e_r _a_r_r_a_y w[1:2]; %s fp := _t_r_u_e; g := 77; h := 2.5; w[1] := 5; w[2] := 6; _f_o_r k := 1 _s_t_e_p 1 _u_n_t_i_l %d _d_o _b_e_g_i_n %s; %s _e_n_d; print(g, h, w[1], w[2]) _e_n_d\n' % (self.HELP, len(calls) // 2, dec, body)
            seq = [('p', k + 1, False) for k in range(len(calls) // 2)]
        else:
            def proc(n, names):
                dec, body, prt = self.text(d, via, names, 'k', 'f' + n)
                rec = '; _i_f k > 1 _t_h_e_n _b_e_g_i_n %s; %s _e_n_d' % ('%s(k - 1)' % n if host != 'fun' else 'print(%s(k - 1)); NLCR' % n, prt)
                head = ('_i_n_t_e_g_e_r ' if host == 'fun' else '') + '_p_r_o_c_e_d_u_r_e %s(k); _v_a_l_u_e k; _i_n_t_e_g_e_r k; ' % n
                if host == 'proc':
                    return head + '_b_e_g_i_n %s; %s%s _e_n_d' % (dec, body, rec)
                if host == 'fun':
                    return head + '_b_e_g_i_n %s; %s%s; %s := 100 × k _e_n_d' % (dec, body, rec, n)
                return head + '_b_e_g_i_n _i_n_t_e_g_e_r t; t := 3 × k; _b_e_g_i_n %s; %s%s _e_n_d; print(t); NLCR _e_n_d' % (dec, body, rec)
            st = []
            for k in range(0, len(calls), 2):
                c = '%s(%s)' % (calls[k], calls[k + 1])
                st.append('print(%s); NLCR' % c if host == 'fun' else c)
            src = '_b_e_g_i_n _i_n_t_e_g_e_r k, g; _r_e_a_l h; _B_o_o_l_e_a_n fp, fq; _i_n_t_e_g_e_r _a_r_r_a_y w[1:2]; %s%s; %s; fp := fq := _t_r_u_e; g := 77; h := 2.5; w[1] := 5; w[2] := 6; %s; print(g, h, w[1], w[2]) _e_n_d\n' % (
                self.HELP, proc('p', names), proc('q', names), '; '.join(st))
            seq = [(calls[k], int(calls[k + 1]), True) for k in range(0, len(calls), 2)]
        out, own, steps = [], {}, [0]

        def show(vals):
            out.append(''.join(('T' if v is True else 'F' if v is False else num.fmt(v)) + ' ' for v in vals) + '\n')

        def run(n, k, rec):
            first = n not in own
            mem = own.setdefault(n, {})
            loc = {}
            for i, t in enumerate(d):
                for j, e in enumerate(self.ELTS.get(t, [''])):
                    m = loc if t[0] == 'l' else mem
                    if first or m is loc:
                        m[i, j] = True if t == 'ob' else F(1, 4) if t in ('or', 'lr', 'ar') else 10 * j + 1
                    m[i, j] = (not m[i, j]) if t == 'ob' else m[i, j] + F(k, 2 + 2 * j) if t in ('or', 'lr', 'ar') else m[i, j] + k * (2 + 2 * j)
                    steps[0] += 1

            def all_():
                show([(loc if t[0] == 'l' else mem)[i, j] for i, t in enumerate(d) for j in range(len(self.ELTS.get(t, [''])))])
            all_()
            if rec and k > 1:
                run(n, k - 1, rec)
                if host == 'fun':
                    out.append('%d\n' % (100 * (k - 1)))
                all_()
            if host == 'block':
                out.append('%d\n' % (3 * k))
        for n, k, rec in seq:
            run(n, k, rec)
            if host == 'fun' and rec:
                out.append('%d\n' % (100 * k))
        out.append('77 2.5 5 6')
        return H.Case('%s: %s %s %d %s' % (self.name, ' '.join(d), host, via, calls), [H.prog_req(src)], H.expect_run('ok', ''.join(out)), src, steps[0], steps[0])


def main(tier):
    return H.check('P08', [Copy(), Recursion(), Functions(), Jensen(), Environments(), Own(), Deep([Copy(), Recursion(), Functions(), Jensen()])], tier)
