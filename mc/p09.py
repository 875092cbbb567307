"""P09: parameters of every kind keep their meaning through any chain of calls."""
from itertools import product
from . import harness as H, algol as A, num
from .deep import Deep
from .p06 import V, N, R, op, pr, txt, SP, NL, INT, REAL
from .p07 import asg, inc, show
from .p08 import runcase

S = lambda a, i: ('s', a, [i])
x = V('x')


def fn(n, *a):
    return ('c', n, list(a))


# kind -> (specification, actual parameter, statements of the final procedure using x)
KINDS = {
    'ivar': (INT, V('v'), [SP, pr(x), asg('x', op('+', x, N(1))), SP, pr(x)]),
    'rvar': (REAL, V('w'), [SP, pr(x), asg('x', op('/', x, N(4))), SP, pr(x)]),
    'bvar': ('boolean', V('b'), [asg('x', ('u', '¬', x)), ('if', x, txt('T'), txt('F'))]),
    'elem': (INT, S('a', V('i')), [SP, pr(x), asg('i', op('-', N(3), V('i'))), SP, pr(x), asg('x', N(77)), SP, pr(x)]),
    'relem': (REAL, S('ra', op('+', V('i'), N(1))), [asg('x', op('+', x, R('.5'))), SP, pr(x), asg('i', N(2)), SP, pr(x)]),
    'expr': (INT, op('+', V('v'), op('×', V('i'), N(2))), [SP, pr(x), inc('i'), SP, pr(op('-', x, N(1)))]),
    'const': (INT, N(42), [SP, pr(x), SP, pr(op('×', x, x))]),
    'rconst': (REAL, R('2.75'), [SP, pr(x), SP, pr(op('+', x, x))]),
    'bconst': ('boolean', ('b', False), [('if', x, txt('T'), txt('F'))]),
    'cond': ('boolean', op('<', V('i'), N(2)), [('if', x, txt('T'), txt('F')), asg('i', N(2)), ('if', x, txt('T'), txt('F'))]),
    'ifex': (INT, ('if', op('<', V('i'), N(2)), V('v'), S('a', N(2))), [SP, pr(x), asg('i', N(2)), SP, pr(x)]),
    'callex': (INT, fn('f', V('v')), [SP, pr(x), SP, pr(x)]),
    'iarr': ('integer array', V('a'), [SP, pr(S('x', N(1))), (':=', [S('x', N(2))], op('+', S('x', N(1)), N(5))), SP, pr(S('x', V('i')))]),
    'rarr': ('real array', V('ra'), [SP, pr(S('x', N(2))), (':=', [S('x', N(1))], R('.125')), SP, pr(S('x', V('i')))]),
    'arr2': ('integer array', V('aa'), [(':=', [('s', 'x', [V('i'), N(2)])], N(8)), SP, pr(('s', 'x', [N(1), N(2)])), SP, pr(('s', 'x', [N(2), N(1)]))]),
    'label': ('label', V('la'), [txt('j'), ('goto', x)]),
    'lab2': ('label', ('if', op('<', V('i'), N(2)), V('la'), V('lb')), [txt('j'), asg('i', N(2)), ('goto', x)]),
    'labs': ('label', S('sw', V('i')), [txt('j'), ('if', op('=', V('g'), N(1)), asg('i', N(2))), ('goto', x)]),
    'switch': ('switch', V('sw'), [txt('j'), ('if', op('=', V('g'), N(1)), asg('i', N(2))), ('goto', S('x', V('i')))]),
    'string': ('string', ('str', 'one `two\' x;'), [('call', 'PRINTTEXT', [x]), ('call', 'PRINTTEXT', [x])]),
    'proc0': ('procedure', V('q'), [('call', 'x', []), ('call', 'x', [])]),
    'proc1': ('procedure', V('qq'), [('call', 'x', [V('i'), N(4)]), SP, pr(V('i'))]),
    'procf': ('procedure', V('qf'), [('call', 'x', [V('fin2')])]),
    'procj': ('procedure', V('qj'), [txt('j'), ('call', 'x', [])]),
    'fun0': ('integer procedure', V('e'), [SP, pr(V('x')), SP, pr(op('+', V('x'), N(1)))]),
    'fun1': ('integer procedure', V('f'), [SP, pr(fn('x', N(3))), SP, pr(fn('x', fn('x', V('i'))))]),
    'rfun': ('real procedure', V('h'), [SP, pr(fn('x', V('i'), V('g'))), SP, pr(op('/', fn('x', N(1), R('.5')), N(2)))]),
    'bfun': ('boolean procedure', V('bf'), [('if', fn('x', V('i')), txt('T'), txt('F')), ('if', fn('x', N(9)), txt('T'), txt('F'))]),
    'abs': ('real procedure', V('abs'), [SP, pr(fn('x', ('u', '-', V('i')))), SP, pr(op('+', fn('x', N(-3)), N(1)))]),
    'sign': ('integer procedure', V('sign'), [SP, pr(fn('x', ('u', '-', V('i')))), SP, pr(op('+', fn('x', N(8)), N(1)))]),
    'entier': ('integer procedure', V('entier'), [SP, pr(fn('x', ('u', '-', R('2.5')))), SP, pr(op('+', fn('x', R('2.25')), V('i')))]),
    'sqrt': ('real procedure', V('sqrt'), [SP, pr(fn('x', N(16))), SP, pr(fn('x', fn('x', N(16))))]),
    'EVEN': ('integer procedure', V('EVEN'), [SP, pr(fn('x', N(16))), SP, pr(fn('x', fn('x', N(15))))]),
    'read': (REAL, V('read'), [SP, pr(x), SP, pr(op('+', x, N(1)))]),
    'readf': ('real procedure', V('read'), [SP, pr(x), SP, pr(op('+', x, N(1)))]),
    'print': ('procedure', V('print'), [('call', 'x', [V('i')]), SP, ('call', 'x', [op('+', V('v0'), N(1))])]),
    'NLCR': ('procedure', V('NLCR'), [('call', 'x', []), ('call', 'x', [])]),
    'SPACE': ('procedure', V('SPACE'), [('call', 'x', [N(3)]), txt(';'), ('call', 'x', [V('i')]), txt(';')]),
    'PRINTTEXT': ('procedure', V('PRINTTEXT'), [('call', 'x', [('str', 'abc')])]),
}
VALUE = {'ivar', 'rvar', 'bvar', 'elem', 'relem', 'expr', 'const', 'rconst', 'bconst', 'cond', 'ifex', 'callex', 'read', 'iarr', 'rarr', 'arr2'}
SCALAR = VALUE - {'iarr', 'rarr', 'arr2'}
LINKS = ['plain', 'local', 'rec', 'nested', 'block', 'wrap', 'apply', 'loop', 'func', 'value', 'second', 'twice', 'fornext', 'inthunk']


def link(kind, spec, t, me, nxt):
    """procedure `me' that hands its formal x over to `nxt' (taking one parameter)"""
    call = lambda a=x: ('call', nxt, [a])
    P = lambda body, value=False, ex=(): [('proc', None, me, list(ex) + [('x', spec, value)], body)]
    if t == 'plain':
        return P(('cmp', [call()])), None
    if t == 'local':
        # own variables with the names of the caller's
        return P(('blk', [('var', INT, ['v', 'i']), ('var', REAL, ['w']), ('arr', INT, ['a'], [(N(1), N(2))])],
                    [asg('v', N(900)), asg('i', N(901)), asg('w', N(902)), (':=', [S('a', N(1))], N(903)), call(), SP, pr(V('v')), SP, pr(V('i'))])), None
    if t == 'rec':
        return [('proc', None, me, [('x', spec, False)], ('blk', [('proc', None, 'r' + me, [('k', INT, True), ('x', spec, False)],
                 ('blk', [('var', INT, ['i'])], [asg('i', op('+', V('k'), N(50))), ('if', op('>', V('k'), N(0)), ('call', 'r' + me, [op('-', V('k'), N(1)), x]), call()), SP, pr(V('i'))]))],
                 [('call', 'r' + me, [N(2), x])]))], None
    if t == 'nested':
        # reached from an inner procedure, not as its parameter
        return P(('blk', [('var', INT, ['v']), ('proc', None, 'n' + me, [('y', INT, True)], ('blk', [('var', INT, ['i'])], [asg('i', V('y')), call(), SP, pr(op('+', V('i'), V('v')))]))],
                    [asg('v', N(60)), ('call', 'n' + me, [N(5)])])), None
    if t == 'block':
        return P(('blk', [('var', INT, ['z'])], [asg('z', N(70)), ('blk', [('var', INT, ['i']), ('arr', REAL, ['ra'], [(N(1), V('z'))])], [asg('i', N(71)), call(), SP, pr(V('i'))]), SP, pr(V('z'))])), None
    if t == 'wrap':
        if kind in ('string', 'iarr', 'rarr', 'arr2', 'switch') or kind not in SCALAR and spec not in ('label',):
            return None, None
        if kind in ('ivar', 'rvar', 'bvar', 'elem', 'relem'):
            return None, None       # an expression cannot be assigned to
        return P(('cmp', [call(('if', op('>', V('g'), N(-5)), x, x))])), None
    if t == 'apply':
        # the next procedure is itself a formal parameter
        return P(('cmp', [('call', 'ap' + me, [V(nxt), x])])) + [('proc', None, 'ap' + me, [('pp', 'procedure', False), ('x', spec, False)], ('blk', [('var', INT, ['v'])], [asg('v', N(80)), ('call', 'pp', [x]), SP, pr(V('v'))]))], None
    if t == 'loop':
        return P(('blk', [('var', INT, ['k'])], [('for', V('k'), [('su', N(1), N(1), N(2))], ('cmp', [txt('<'), call(), SP, pr(V('k'))]))])), None
    if t == 'func':
        return [('proc', INT, me, [('x', spec, False)], ('blk', [('var', INT, ['v'])], [asg('v', N(31)), asg(me, N(32)), call(), SP, pr(V('v'))]))], None
    if t == 'value':
        if kind not in VALUE:
            return None, None
        return P(('cmp', [call(), call()]), True), None
    if t == 'second':
        return P(('cmp', [call()]), ex=[('o1', INT, True), ('o2', INT, False)]), [N(3), op('+', V('g'), N(1))]
    if t == 'twice':
        return P(('cmp', [call(), txt(','), call()])), None
    if t == 'fornext':
        # called from within a block that is left by a jump
        return P(('blk', [('var', INT, ['k'])], [asg('k', N(0)), ('lab', 'ag', ('blk', [('var', INT, ['i'])], [asg('i', N(4)), inc('k'), call(), ('if', op('<', V('k'), N(2)), ('goto', V('ag')))])), SP, pr(V('k'))])), None
    if t == 'inthunk':
        # the call happens while an actual parameter is evaluated
        return P(('blk', [('proc', INT, 'th' + me, [], ('blk', [('var', INT, ['i'])], [asg('i', N(12)), call(), asg('th' + me, V('i'))])),
                          ('proc', None, 'ev' + me, [('y', INT, False)], ('blk', [('var', INT, ['v'])], [asg('v', N(9)), asg('v', op('+', V('v'), V('y'))), SP, pr(V('v'))]))],
                         [('call', 'ev' + me, [fn('th' + me)])])), None
    raise ValueError(t)


PLACES = ['global', 'local', 'rec', 'block', 'formal']


def program(kind, chain, place):
    spec, act, use = KINDS[kind]
    fin = [('proc', None, 'fin', [('x', spec, False)], ('cmp', [txt('[')] + use + [txt(']')]))]
    decls = [('proc', None, 'fin2', [('y', INT, False)], ('cmp', [SP, pr(op('+', V('y'), N(1)))]))] + fin
    names = ['l%d' % i for i in range(len(chain))] + ['fin']
    extra = []
    for i, t in enumerate(chain):
        p, ex = link(kind, spec, t, names[i], names[i + 1])
        if p is None:
            return None
        extra.append(ex)
        decls += p
    # a link with extra parameters is called through an adapter
    for i, ex in enumerate(extra):
        if ex:
            for d in decls:
                if d[2] == names[i]:
                    decls[decls.index(d)] = ('proc', None, names[i] + 'x', d[3], d[4])
            decls.append(('proc', None, names[i], [('x', spec, False)], ('cmp', [('call', names[i] + 'x', ex + [x])])))
    # the caller's entities; i and g are global so that the final procedure can change them
    K = V('kk') if place in ('rec', 'formal') else N(1)
    vars_ = [('var', INT, ['v']), ('var', REAL, ['w']), ('var', 'boolean', ['b'])]
    arrs = [('arr', INT, ['a'], [(N(1), N(2))]), ('arr', REAL, ['ra'], [(N(1), N(3))]), ('arr', INT, ['aa'], [(N(1), N(2)), (N(1), N(2))])]
    swd = [('sw', 'sw', [V('la'), V('lb')])]
    ents = [
        ('proc', None, 'q', [], ('cmp', [SP, pr(V('v')), inc('v')])),
        ('proc', None, 'qq', [('s', INT, False), ('t', INT, True)], ('cmp', [asg('s', op('+', V('s'), op('+', V('t'), V('v')))), inc('v')])),
        ('proc', None, 'qf', [('s', 'procedure', False)], ('cmp', [('call', 's', [V('v')]), ('call', 's', [N(6)])])),
        ('proc', None, 'qj', [], ('blk', [('var', INT, ['z'])], [asg('z', N(1)), ('goto', V('la'))])),
        ('proc', INT, 'e', [], ('cmp', [asg('e', op('+', V('v'), N(100))), inc('v')])),
        ('proc', INT, 'f', [('s', INT, True)], asg('f', op('+', op('×', V('s'), N(2)), V('v')))),
        ('proc', REAL, 'h', [('s', INT, False), ('t', REAL, False)], asg('h', op('+', op('×', V('s'), R('1.5')), op('+', V('t'), V('w'))))),
        ('proc', 'boolean', 'bf', [('s', INT, True)], asg('bf', op('<', V('s'), V('v'))))]
    init = [asg('v', op('+', K, N(6))), asg('w', op('+', K, R('.25'))), (':=', [V('b')], op('>', K, N(0)))]
    init += [(':=', [S('a', N(k))], op('+', K, N(10 * k))) for k in (1, 2)] + [(':=', [S('ra', N(k))], op('+', K, R('%d.5' % k))) for k in (1, 2, 3)]
    init += [(':=', [('s', 'aa', [N(k), N(l)])], op('+', K, N(k * 100 + l * 10))) for k in (1, 2) for l in (1, 2)]
    st = [('call', names[0], [act]), txt('R'), ('goto', V('lc')), ('lab', 'la', txt('A')), SP, pr(V('v')), ('goto', V('lc')), ('lab', 'lb', txt('B')), SP, pr(V('v')),
          ('lab', 'lc', ('nop',)), SP, pr(V('v')), SP, pr(V('w')), SP, pr(S('a', N(1))), SP, pr(S('a', N(2))), SP, pr(S('ra', N(1))), SP, pr(S('ra', N(2))), SP, pr(('s', 'aa', [N(1), N(2)])),
          ('if', V('b'), txt('t'), txt('f'))]
    top = [asg('i', N(1)), asg('g', N(0)), asg('v0', N(3))]
    gl = [('var', INT, ['i', 'g', 'v0'])]
    if place == 'global':
        return ('blk', gl + vars_ + arrs + swd + decls + ents, top + init + st)
    if place == 'local':
        m = ('proc', None, 'm', [], ('blk', vars_ + arrs + swd + ents, init + st))
        return ('blk', gl + decls + [m], top + [('call', 'm', [])])
    if place == 'block':
        return ('blk', gl + decls, top + [('blk', [('var', INT, ['u'])] + vars_ + arrs + swd + ents, [asg('u', N(5))] + init + st + [SP, pr(V('u'))])])
    if place == 'rec':
        # every activation passes its own entities, the outer ones after the inner ones
        m = ('proc', None, 'm', [('kk', INT, True)], ('blk', vars_ + arrs + swd + ents,
             init + [('if', op('>', V('kk'), N(0)), ('call', 'm', [op('-', V('kk'), N(1))])), asg('g', N(0)), asg('i', N(1)), txt('<<')] + st + [txt('>>')]))
        return ('blk', gl + decls + [m], top + [('call', 'm', [N(2)])])
    if place == 'formal':
        # the chain is called by the innermost activation with the entity of the outermost one
        go = [('if', op('>', V('kk'), N(0)), ('call', 'm', [op('-', V('kk'), N(1)), ('if', op('=', V('kk'), N(2)), act, x) if False else x]), ('call', names[0], [x]))]
        inner = ('proc', None, 'm', [('kk', INT, True), ('x', spec, False)], ('blk', vars_ + arrs, init + go + [SP, pr(V('v'))]))
        n = ('proc', None, 'n', [('kk', INT, True)], ('blk', vars_ + arrs + swd + ents,
             init + [('call', 'm', [N(2), act])] + st[1:]))
        return ('blk', gl + decls + [inner, n], top + [('call', 'n', [N(4)])])


class Chain(H.Space):
    name = 'chains'
    rule = ('every kind of actual parameter (%d) x place of the entity (outermost block, procedure, block, recursive activation, passed down a recursion) x chains of up to 2 (thorough: 3) links of %d kinds'
            % (len(KINDS), len(LINKS)))

    def descs(self, tier):
        for n in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
            for ch in product(LINKS, repeat=n):
                for k in KINDS:
                    for p in PLACES:
                        if tier == 'quick' and n == 2 and p in ('local', 'block') and 'nested' not in ch:
                            continue
                        if n == 3 and p not in ('rec', 'formal'):
                            continue
                        yield k, ch, p

    def case(self, d):
        p = program(*d)
        if p is None:
            return None
        return runcase(self.name, None, p, maxsteps=20000, data=range(11, 100) if 'read' in d[0] + str(d[1]) else None, key='%s %s %s' % (d[0], '>'.join(d[1]), d[2]))


class Pairs(H.Space):
    name = 'pairs'
    rule = 'procedures with two formals of all pairs of kinds, handed over in both orders through a recursive link'

    def descs(self, tier):
        for a in KINDS:
            for b in KINDS:
                for sw in (False, True):
                    yield a, b, sw

    def case(self, d):
        a, b, sw = d
        ka, kb = KINDS[a], KINDS[b]
        base = program(a, (), 'local')
        if base is None:
            return None
        fin = [('proc', None, 'fina', [('x', ka[0], False)], ('cmp', [txt('[')] + ka[2] + [txt(']')])),
               ('proc', None, 'finb', [('x', kb[0], False)], ('cmp', [txt('(')] + kb[2] + [txt(')')]))]
        call = [('call', 'finb', [V('y')]), ('call', 'fina', [V('x')])] if sw else [('call', 'fina', [V('x')]), ('call', 'finb', [V('y')])]
        if sw:
            rec = ('proc', None, 'l0', [('kk', INT, True), ('y', kb[0], False), ('x', ka[0], False)], ('cmp', [('if', op('>', V('kk'), N(0)), ('call', 'l0', [op('-', V('kk'), N(1)), V('y'), V('x')]), ('cmp', call))]))
            args = [N(1), kb[1], ka[1]]
        else:
            rec = ('proc', None, 'l0', [('x', ka[0], False), ('kk', INT, True), ('y', kb[0], False)], ('cmp', [('if', op('>', V('kk'), N(0)), ('call', 'l0', [V('x'), op('-', V('kk'), N(1)), V('y')]), ('cmp', call))]))
            args = [ka[1], N(1), kb[1]]
        m = base[1][-1]
        body = m[4]
        stm = list(body[2])
        k = next(i for i, s in enumerate(stm) if s[0] == 'call' and s[1] == 'fin')
        stm[k] = ('call', 'l0', args)
        m = ('proc', None, 'm', [], ('blk', body[1], stm))
        prog = ('blk', base[1][:-1] + fin + [rec, m], base[2])
        return runcase(self.name, None, prog, maxsteps=20000, data=range(11, 100) if 'read' in d[0] + str(d[1]) else None, key='%s %s %s' % (a, b, sw))


# ------------------------------------------------------------- environments
class Environments(H.Space):
    name = 'environments'
    rule = ('entities of every kind declared at each of up to 4 levels (procedures or blocks) of a recursive procedure, passed as actual parameters from the innermost level, '
            'while that level is executed on behalf of another activation: x host that uses the formal x way to the innermost level x depth')
    SHAPES = ['P', 'PP', 'PB', 'BP', 'PPP', 'PBP']
    # kind -> (specification, use of x); entity name + level
    USES = {
        'label': ('label', [txt('j'), ('goto', x)]),
        'labx': ('label', [txt('j'), ('goto', x)]),
        'switch': ('switch', [txt('j'), ('goto', S('x', N(1)))]),
        'proc': ('procedure', [('call', 'x', []), ('call', 'x', [])]),
        'procp': ('procedure', [('call', 'x', [N(5)])]),
        'jump': ('procedure', [('call', 'x', [])]),
        'fun': ('integer procedure', [SP, pr(fn('x', N(3)))]),
        'fun0': ('integer procedure', [SP, pr(V('x')), SP, pr(op('+', V('x'), V('x')))]),
        'arr': ('integer array', [(':=', [S('x', N(2))], op('+', S('x', N(1)), S('x', N(2)))), SP, pr(S('x', N(2)))]),
        'bool': ('boolean', [('if', x, txt('T'), txt('F')), asg('x', ('u', '¬', x))]),
        'cond': ('boolean', [('if', x, txt('T'), txt('F'))]),
        'expr': (INT, [SP, pr(x), SP, pr(op('×', x, x))]),
        'real': (REAL, [asg('x', op('/', x, N(2))), SP, pr(x)]),
    }
    HOSTS = ['use', 'n1', 'n2', 'rec', 'on', 'on2']
    BOTTOM = ['f', 'run(f)', 'b', 'back(f)']

    def descs(self, tier):
        for sh in self.SHAPES:
            for kind in self.USES:
                for lev in range(len(sh) + 1):
                    for host in self.HOSTS:
                        for bot in self.BOTTOM:
                            for pas in 'bf':
                                for dep in ((1, 2) if tier == 'quick' else (0, 1, 2, 3)):
                                    yield sh, kind, lev, host, bot, pas, dep

    def case(self, d):
        sh, kind, lev, host, bot, pas, dep = d
        n = len(sh)
        spec, leaf = self.USES[kind]
        F = [('x', spec, False)]
        w = lambda nm, c, inner, st: ('proc', None, nm, [], ('blk', [('var', INT, ['w'])] + inner, [asg('w', N(c))] + st + [SP, pr(V('w'))]))
        hosts = [
            ('proc', None, 'use', F, ('cmp', leaf)),
            ('proc', None, 'n1', F, ('blk', [('var', INT, ['y']), w('m1', 7, [], leaf)], [asg('y', N(70)), ('call', 'm1', []), SP, pr(V('y'))])),
            ('proc', None, 'n2', F, ('blk', [('var', INT, ['y']), w('m1', 7, [w('m2', 8, [w('m3', 9, [], leaf)], [('call', 'm3', [])])], [('call', 'm2', [])])], [asg('y', N(70)), ('call', 'm1', []), SP, pr(V('y'))])),
            ('proc', None, 'rec', [('j', INT, True)] + F, ('blk', [('var', INT, ['w'])], [asg('w', V('j')), ('if', op('>', V('j'), N(0)), ('call', 'rec', [op('-', V('j'), N(1)), x]), ('cmp', leaf)), SP, pr(V('w'))])),
            ('proc', None, 'on', F, ('cmp', [('call', 'n1', [x]), ('call', 'use', [x])])),
            ('proc', None, 'on2', F, ('blk', [('var', INT, ['w']), ('proc', None, 'i1', [('y', spec, False)], ('cmp', [('call', 'n2', [x]), ('call', 'use', [V('y')]), ('call', 'on', [V('y')])]))], [asg('w', N(3)), ('call', 'i1', [x]), SP, pr(V('w'))]))]
        run = ('proc', None, 'run', [('f', 'procedure', False)], ('blk', [('var', INT, ['w'])], [asg('w', N(55)), ('call', 'f', []), SP, pr(V('w'))]))
        back = ('proc', None, 'back', [('f', 'procedure', False)], ('blk', [('var', INT, ['w']), ('proc', None, 'i1', [], ('blk', [('var', INT, ['u'])], [asg('u', N(66)), ('call', 'run', [V('f')]), SP, pr(V('u'))]))], [asg('w', N(56)), ('call', 'i1', []), SP, pr(V('w'))]))
        v = lambda i: V('v%d' % i)
        act = {'label': V('l%d' % lev), 'labx': ('if', op('>', v(lev), N(0)), V('l%d' % lev), V('l%d' % n)), 'switch': V('s%d' % lev), 'proc': V('q%d' % lev), 'procp': V('r%d' % lev), 'jump': V('j%d' % lev),
               'fun': V('f%d' % lev), 'fun0': V('g%d' % lev), 'arr': V('e%d' % lev), 'bool': V('b%d' % lev), 'cond': op('>', v(lev), v(n)), 'expr': op('+', v(lev), v(n)), 'real': V('w%d' % lev)}[kind]
        call = ('call', host, [N(2), act] if host == 'rec' else [act])

        def level(i):
            k = str(i)
            dec = [('var', INT, ['v' + k]), ('var', REAL, ['w' + k]), ('var', 'boolean', ['b' + k]), ('arr', INT, ['e' + k], [(N(1), N(2))]), ('sw', 's' + k, [V('l' + k)]),
                   ('proc', None, 'q' + k, [], ('cmp', [SP, pr(v(i)), inc('v' + k)])), ('proc', None, 'r' + k, [('z', INT, True)], ('cmp', [asg('v' + k, op('+', v(i), V('z'))), SP, pr(v(i))])),
                   ('proc', None, 'j' + k, [], ('blk', [('var', INT, ['u'])], [asg('u', N(1)), ('goto', V('l' + k))])),
                   ('proc', INT, 'f' + k, [('z', INT, False)], ('cmp', [inc('v' + k), asg('f' + k, op('+', v(i), V('z')))])), ('proc', INT, 'g' + k, [], asg('g' + k, op('+', v(i), N(1))))]
            st = [asg('v' + k, op('+', op('×', V('k'), N(100)), N(10 * i))), asg('w' + k, op('+', v(i), R('.5'))), (':=', [V('b' + k)], op('<', V('k'), N(2))),
                  (':=', [S('e' + k, N(1))], N(1)), (':=', [S('e' + k, N(2))], op('+', op('×', V('k'), N(1000)), N(i)))]
            end = [('lab', 'l' + k, txt('L' + k)), SP, pr(v(i)), SP, pr(S('e' + k, N(2))), SP, pr(V('w' + k)), ('if', V('b' + k), txt('t'), txt('f'))]
            if i == n:
                return dec, st + [call] + end
            d2, s2 = level(i + 1)
            if sh[i] == 'P':
                nm = 'c' + k if i else 'b'
                pp = ('proc', None, nm, [], ('blk', d2, s2))
                return dec + [pp], st + ([('call', nm, [])] + end if i else [])
            if i == 0:
                return dec + [('proc', None, 'b', [], ('blk', [('var', INT, ['u'])], [asg('u', N(1)), ('blk', d2, s2), SP, pr(V('u'))]))], st
            return dec, st + [('blk', d2, s2)] + end
        dec, st = level(0)
        bots = {'f': ('call', 'f', []), 'b': ('call', 'b', []), 'run(f)': ('call', 'run', [V('f')]), 'back(f)': ('call', 'back', [V('f')])}
        body = st + [('if', op('>', V('k'), N(0)), ('call', 'a', [op('-', V('k'), N(1)), V(pas)]), bots[bot]), txt('/'),
                     ('lab', 'l0', txt('L0')), SP, pr(v(0)), SP, pr(S('e0', N(2))), SP, pr(V('w0')), ('if', V('b0'), txt('t'), txt('f')), SP, pr(V('k'))]
        ap = ('proc', None, 'a', [('k', INT, True), ('f', 'procedure', False)], ('blk', dec, body))
        prog = ('blk', hosts + [run, back, ap, ('proc', None, 'nil', [], txt('nil'))], [('call', 'a', [N(dep), V('nil')])])
        return runcase(self.name, d, prog, maxsteps=20000)


def main(tier):
    return H.check('P09', [Chain(), Pairs(), Environments(), Deep([Chain(), Pairs()])], tier)
