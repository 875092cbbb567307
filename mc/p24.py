"""P24: every identifier refers to its innermost declaration."""
from itertools import product
import re
from . import harness as H, algol as A

KEYW = re.compile(r'\b(%s)\b' % '|'.join(A.KEYWORDS))


def plain(s):
    return ''.join(p if p.startswith('`') else KEYW.sub(lambda m: A.U(m.group(1)), p) for p in re.split(r"(`[^']*')", s))


# ------------------------------------------------------------------ names
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
ALNUM = LETTERS + '0123456789'


class Pairs(H.Space):
    name = 'pairs of similar names'
    rule = 'names of 1 to 9 symbols x every position x every other symbol there; every name with one symbol more; names declared in the same block and in nested blocks; as variable and procedure'
    pack = 24
    BASES = ['abcdefghi', 'z9z9z9z9z', 'aaaaaaaaa', 'Zz0Aa9Kk1', 'X0000000a', 'ppPpPPpQQ']

    def descs(self, tier):
        bases = self.BASES[:3] if tier == 'quick' else self.BASES
        for b in bases:
            for n in range(1, 10):
                w = b[:n]
                for k in range(n):
                    for c in (LETTERS if k == 0 else ALNUM):
                        if c != w[k]:
                            yield (w, w[:k] + c + w[k + 1:], (n + k) % 3)
                for c in ALNUM:
                    if n < 9:
                        yield (w, w + c, n % 3)
                        yield (w + c, w, (n + 1) % 3)
                for m in range(n + 2, 10):
                    yield (w, b[:m], 0)
                    yield (b[:m], w, 2)
                # exchanged symbols
                for i in range(n):
                    for j in range(i + 1, n):
                        v = list(w)
                        v[i], v[j] = v[j], v[i]
                        v = ''.join(v)
                        if v != w and v[0].isalpha():
                            yield (w, v, (i + j) % 3)

    def model(self, desc):
        return 'ok', '12345', 2, 1

    def program(self, descs):
        t = []
        for a, b, form in descs:
            if form == 0:       # the same block
                t.append('begin integer %s, %s; %s := 123; %s := 45; zout(%s); zout(%s) end' % (a, b, a, b, a, b))
            elif form == 1:     # nested blocks
                t.append('begin integer %s; %s := 123; begin real %s; %s := 45; zout(%s); zout(%s) end end' % (a, a, b, b, a, b))
            else:               # variable and procedure
                t.append('begin integer %s; procedure %s; zout(45); %s := 123; zout(%s); %s end' % (a, b, a, a, b))
        return plain('begin procedure zout(zn); value zn; integer zn; print(zn);\n' + ';NLCR;\n'.join(t) + ';NLCR end\n')

    def describe(self, desc):
        return '%s %s %d' % desc


class Sets(H.Space):
    name = 'many names in one block'
    rule = 'all names of one and of two symbols (thorough: three), 120 at a time, each with its own value'

    def descs(self, tier):
        names = list(LETTERS) + [a + b for a in LETTERS for b in ALNUM]
        if tier != 'quick':
            names += [a + b + c for a in LETTERS[::3] for b in ALNUM for c in ALNUM]
        for i in range(0, len(names), 120):
            yield (0, tuple(names[i:i + 120]))
        for pre in ('abcd', 'abcde', 'abcdefg'):
            w = [pre + a for a in ALNUM]
            yield (1, tuple(w))
            for a in ALNUM if tier != 'quick' else ALNUM[::9]:
                yield (2, tuple(pre + a + b for b in ALNUM))
        for w in ('a', 'abcd', 'abcde', 'abcdefghi'):
            yield (3, tuple(w[:k] + c + w[k + 1:] for k in range(len(w)) for c in (LETTERS if k == 0 else ALNUM)[::2] if c != w[k]) + (w,))

    def case(self, desc):
        names = [n for n in dict.fromkeys(desc[1]) if n not in A.KEYWORDS][:400]
        d = ';\n'.join('integer ' + ', '.join(names[i:i + 12]) for i in range(0, len(names), 12))
        src = plain('begin begin %s;\n%s;\n%s end end\n' % (d, ';\n'.join('%s := %d' % (n, k) for k, n in enumerate(names)),
                                                         ';\n'.join('FIXT(4, 0, %s)' % n for n in names))) if 'FIXT' not in names else None
        return H.Case('set %d %s' % (desc[0], names[0]), [H.prog_req(src)], H.expect_run('ok', ''.join(fix(k) for k in range(len(names)))), src, len(names), len(names))


def fix(k):
    return '+%4d ' % k


class Long(H.Space):
    name = 'names of more than nine symbols'
    rule = 'the same spelling is the same entity at every length to 40; names that differ in the first nine symbols are different'

    def descs(self, tier):
        for n in range(10, 41):
            yield (n, -1, 'x')
            for k in range(9):
                for c in 'x0Q' if k else 'xQ':
                    yield (n, k, c)

    def case(self, desc):
        n, k, c = desc
        a = 'abcdefghijklmnopqrstuvwyzABCDEFGHIJKLMNOP'[:n]
        if k < 0:
            src = 'begin integer %s; procedure p%s; zq(%s); procedure zq(n); value n; integer n; print(n); %s := 7; p%s; %s:' % (a, a, a, a, a, a[::-1])
            src = plain(src + ' end\n')
            return H.Case('long %d' % n, [H.prog_req(src)], H.expect_run('ok', '7'), src)
        b = a[:k] + c + a[k + 1:]
        src = plain('begin integer %s, %s; %s := 1; %s := 2; print(%s, %s) end\n' % (a, b, a, b, a, b))
        return H.Case('long %d %d %s' % desc, [H.prog_req(src)], H.expect_run('ok', '1 2'), src)


# ----------------------------------------------------------------- scopes
# kind: (declaration phase, declaration, initialization, use); T is the tag
KINDS = {
    'int': (0, 'integer @', '@ := #', 'zo(@)'),
    'real': (0, 'real @', '@ := #', 'zo(@)'),
    'bool': (0, 'boolean @', '@ := true', 'zo(if @ then # else 0)'),
    'arr': (1, 'integer array @[1:2]', '@[2] := #', 'zo(@[2])'),
    'rarr': (1, 'array @[1:2, 0:2]', '@[2, 1] := #', 'zo(@[2, 1])'),
    'switch': (2, 'switch @ := zl#', '', 'goto @[1]'),
    'proc': (3, 'procedure @; zo(#)', '', '@'),
    'procp': (3, 'procedure @(zz); value zz; integer zz; zo(zz + #)', '', '@(0)'),
    'func': (3, 'integer procedure @; @ := #', '', 'zo(@)'),
    'funcp': (3, 'real procedure @(zz); value zz; real zz; @ := # + zz', '', 'zo(@(0))'),
    'label': (9, '', '', 'goto @'),
}
# formal kinds: (specification, value?, actual, use)
FORMALS = {
    'fvalue': ('integer @', True, 'zv#', 'zo(@)'),
    'fname': ('integer @', False, 'zv#', 'zo(@)'),
    'fexpr': ('real @', False, 'zv# + 0', 'zo(@)'),
    'farr': ('integer array @', False, 'za#', 'zo(@[1])'),
    'fvarr': ('integer array @', True, 'za#', 'zo(@[1])'),
    'fproc': ('procedure @', False, 'zp#', '@'),
    'ffunc': ('integer procedure @', False, 'zf#', 'zo(@)'),
    'flabel': ('label @', False, 'zg#', 'goto @'),
    'fswitch': ('switch @', False, 'zs#', 'goto @[1]'),
    'fstring': ('string @', False, "`s#'", 'PRINTTEXT(@)'),
}
ASSIGNABLE = {'int': '@', 'real': '@', 'arr': '@[2]', 'rarr': '@[2, 1]', 'fvalue': '@', 'fname': '@', 'farr': '@[1]', 'fvarr': '@[1]'}

# standard names: use and output
STD = {
    'abs': ('zo(@(-3))', '3'), 'sign': ('zo(@(-3))', '-1'), 'sqrt': ('zo(@(9))', '3'), 'sin': ('zo(@(0))', '0'), 'cos': ('zo(@(0))', '1'),
    'arctan': ('zo(@(0))', '0'), 'ln': ('zo(@(1))', '0'), 'exp': ('zo(@(0))', '1'), 'entier': ('zo(@(2.5))', '2'), 'read': ('zo(@)', '6'),
    'RESYM': ('zo(@)', '6'), 'EVEN': ('zo(@(zi))', '-1'), 'XEEN': ('zo(@(3))', '2'), 'TAB': ('@', '\t'), 'NLCR': ('@', '\n'), 'SPACE': ('@(2)', '  '),
    'PRINTTEXT': ("@(`pq')", 'pq'), 'PRSYM': ('@(10)', 'a'), 'FIXT': ('@(2, 0, 7)', ' +7 '), 'ABSFIXT': ('@(2, 0, 7)', '  7 '),
    'FLOT': ('@(2, 1, .5)', ' +.50⏨+0 '), 'SUM': ('zo(@(zj, 1, 3, zj))', '6'), 'print': ('@(5)', '5'), 'RANDOM': ('if @ < 1 then zo(1)', '1'),
    'SETRANDOM': ('@(.5)', ''), 'TIMEOFDAY': ('if @ > 0 then zo(1)', '1'), 'stop': ('@', ''),
}


def emit(levels, use, name, assign=False):
    """levels: [(scope, kind)], scope in 'block', 'proc', 'call'; use: (level, when)
    when: 0 before the inner scope, 1 after it, 2 in a procedure of the level that the innermost scope calls.
    -> program, expected output"""
    n = len(levels)
    tags = [11 + 22 * i for i in range(n)]
    lev, when = use
    # resolution
    own = None
    for i in range(lev, -1, -1):
        if levels[i][1] is not None:
            own = i
            break
    if own is None:
        if name not in STD or assign:
            return None
        text, out = STD[name]
    else:
        k = levels[own][1]
        text = (KINDS[k][3] if k in KINDS else FORMALS[k][3])
        out = 's%d' % tags[own] if k == 'fstring' else str(tags[own])
        if assign:
            if k not in ASSIGNABLE:
                return None
            text = ASSIGNABLE[k] + ' := 50'
        if k == 'fstring' and name == 'PRINTTEXT':
            return None         # nothing else prints a string
        text = text.replace('#', str(tags[own])) if k != 'fstring' else text
    jumps = own is not None and 'goto' in text
    if when == 2 and lev == n - 1:
        return None

    def body(i):
        scope, k = levels[i]
        t = tags[i]
        ph = {0: [], 1: [], 2: [], 3: []}
        init, fin = [], []
        if i == 0:
            ph[0] += ['integer zi, zj'] + ['integer zv%d' % u for u in tags]
            ph[1] += ['integer array za%d[1:2]' % u for u in tags]
            ph[2] += ['switch zs%d := zg%d' % (u, u) for u in tags]
            pr = 'print(zn)' if name != 'print' else 'FIXT(2, 0, zn)'
            ph[3] += ['procedure zo(zn); value zn; integer zn; ' + pr]
            ph[3] += ['procedure zp%d; zo(%d)' % (u, u) for u in tags]
            ph[3] += ['integer procedure zf%d; zf%d := %d' % (u, u, u) for u in tags]
            init += ['zi := 1'] + ['zv%d := %d; za%d[1] := %d' % (u, u, u, u) for u in tags]
        else:
            ph[0].append('integer zd%d' % t)        # labels belong to the block, so it has to be one
        if k in KINDS:
            p, d, a, _ = KINDS[k]
            if p < 4:
                ph[p].append(d)
            if a:
                init.append(a)
        stm = list(init)
        if (i, 0) == use:
            stm.append(text)
        if use == (i, 2):
            ph[3].append('procedure zu; ' + (text if own is None or not text.startswith('if') else 'begin %s end' % text))
        if i + 1 < n:
            sc, kk = levels[i + 1]
            if sc == 'block':
                b = body(i + 1)
                stm.append(b)
            else:
                head, act = 'procedure zc%d' % (i + 1), 'zc%d' % (i + 1)
                if kk in FORMALS:
                    sp, val, ac, _ = FORMALS[kk]
                    head += '(@); ' + ('value @; ' if val else '') + sp
                    act += '(' + ac.replace('#', str(tags[i + 1])) + ')'
                ph[3].append(head + '; ' + body(i + 1))
                stm.append(act)
        elif when == 2:
            stm.append('zu')
        if (i, 1) == use:
            stm.append(text)
        if assign and k in ASSIGNABLE:
            stm.append('zo(%s)' % ASSIGNABLE[k])
        stm.append('goto ze%d' % t)
        tail = []
        if k == 'label':
            tail.append('@: zo(%d); goto ze%d' % (t, t))
        if k == 'switch':
            tail.append('zl%d: zo(%d); goto ze%d' % (t, t, t))
        if i == 0:
            for u in tags:
                tail.append('zg%d: zo(%d); goto ze%d' % (u, u, t))
        tail.append('ze%d: ' % t + ('zo(99)' if i == 0 else ''))
        d = [x for p in range(4) for x in ph[p]]
        d = [x.replace('#', str(t)) if not x.startswith('procedure z') else x for x in d]
        stm = [x.replace('#', str(t)) if x in init and '@' in x and i >= 0 else x for x in stm]
        return 'begin ' + ''.join(x + ';\n' for x in d) + ';\n'.join(stm + tail) + ' end'
    src = body(0).replace('@', '\0')
    src = src.replace('\0', name)
    # expected output
    if assign:
        exp = ''
        for i in range(n - 1, -1, -1):
            k = levels[i][1]
            if k in ASSIGNABLE:
                exp += ('+' if name == 'print' else '') + ('50' if i == own else str(tags[i]))
    elif own is None and name == 'stop':
        exp = None
    else:
        exp = out
        if name == 'print' and own is None:
            exp = '5'
        elif name == 'print':
            exp = out if levels[own][1] == 'fstring' else '+%s ' % out
    if exp is None:
        return plain(src) + '\n', None
    exp += '+99 ' if name == 'print' else '99'
    return plain(src) + '\n', exp


OUTER = [('block', k) for k in KINDS] + [('block', None)]
INNER = [(s, k) for s in ('block', 'proc') for k in list(KINDS) + [None]] + [('call', k) for k in FORMALS]


class Scopes(H.Space):
    name = 'nested declarations of one name'
    rule = 'declared as each of 11 kinds in the program, as 21 kinds or not at all in one and two inner scopes that are blocks or procedures; used or assigned before, after and inside the inner scopes and in procedures called from there'

    def descs(self, tier):
        for a, b in product(OUTER, INNER):
            for use in ((0, 0), (0, 1), (1, 0), (0, 2)):
                for asg in (False, True):
                    for nm in ('x', 'abcdefghi', 'sin') + (('abcde', 'p', 'q1', 'print', 'read') if tier != 'quick' else ()):
                        yield ((a, b), use, nm, asg)
        outer = OUTER if tier != 'quick' else [('block', 'int'), ('block', 'proc'), ('block', 'label'), ('block', 'arr'), ('block', None)]
        for a, b, c in product(outer, INNER, INNER):
            uses = ((0, 1), (1, 0), (1, 1), (2, 0), (0, 2), (1, 2)) if tier != 'quick' else ((1, 1), (2, 0), (1, 2))
            for use in uses:
                for asg in (False, True):
                    yield ((a, b, c), use, 'x', asg)

    def case(self, desc):
        levels, use, name, asg = desc
        r = emit(list(levels), use, name, asg)
        if r is None or r[1] is None:
            return None
        src, exp = r
        return H.Case('scope %s %s %s %s' % (' '.join('%s:%s' % x for x in levels), use, name, asg), [H.prog_req(src, b'10\n' if name == 'XEEN' else b'6')], judge_out(exp), src, len(levels), 1)


def judge_out(exp):
    def judge(obs):
        o = obs[0]
        got = o.out.decode('utf-8', 'replace')
        if o.status or got.replace(' ', '') != exp.replace(' ', ''):
            return 'the identifier refers to another declaration', {'status': 0, 'stdout': exp}
        return None
    return judge


class Standard(H.Space):
    name = 'standard names declared by the program'
    rule = '27 standard names x 11 kinds in the program or 21 kinds in an inner block or procedure, used inside and the standard one outside'

    def descs(self, tier):
        for nm in STD:
            for a in OUTER:
                yield ((a,), (0, 0), nm)
                for b in INNER:
                    if a[1] is None or tier != 'quick':
                        for use in ((0, 0), (0, 1), (1, 0), (0, 2)):
                            yield ((a, b), use, nm)

    def case(self, desc):
        levels, use, name = desc
        r = emit(list(levels), use, name)
        if r is None or r[1] is None:
            return None
        src, exp = r
        out = judge_out(exp)
        return H.Case('standard %s %s %s' % (' '.join('%s:%s' % x for x in levels), use, name), [H.prog_req(src, b'10\n' if name == 'XEEN' else b'6')], out, src, len(levels), 1)


class Order(H.Space):
    name = 'uses before declarations of the same block'
    rule = 'a procedure that uses a name declared after it in its own block (procedure, function, switch before, label), with the name declared outside as each kind; permutations of mutually recursive procedures'

    LATER = {
        'proc': ('procedure @; print(5)', '', '@'), 'procp': ('procedure @(n); value n; integer n; print(n)', '', '@(5)'),
        'func': ('integer procedure @; @ := 5', '', 'print(@)'), 'funcp': ('integer procedure @(n); value n; integer n; @ := n', '', 'print(@(5))'),
        'label': ('', 'goto ze; @: print(5)', 'goto @'),
    }

    def descs(self, tier):
        for later in self.LATER:
            for k in list(KINDS) + [None, 'std']:
                for place in ('block', 'proc', 'statement', 'program'):
                    for deep in (0, 1, 2):
                        yield (later, k, place, deep)
        for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
            from itertools import permutations
            for p in permutations(range(n)):
                yield ('rec', n, p, 0)

    def case(self, desc):
        if desc[0] == 'rec':
            _, n, p, _ = desc
            names = ['q' * (i + 1) + 'rstuvwxyz'[:i * 2] for i in range(n)]
            d = ['procedure %s(k); value k; integer k; begin print(%d); if k > 0 then %s(k - 1) end' % (names[i], i + 1, names[(i + 1) % n]) for i in range(n)]
            src = plain('begin ' + ';\n'.join(d[i] for i in p) + '; %s(%d) end\n' % (names[0], n + 1))
            return H.Case('order rec %s' % (p,), [H.prog_req(src)], H.expect_run('ok', ''.join(str(i % n + 1) for i in range(n + 2))), src)
        later, k, place, deep = desc
        decl, lab, use = self.LATER[later]
        name = 'sin' if k == 'std' else 'x'
        for _ in range(deep):
            use = 'begin integer zq; zq := 1; %s end' % use
        if place == 'statement':
            inner = 'begin ' + (decl + '; ' if decl else 'integer zy; ') + use + ('; ' + lab if lab else '') + '; ze: end'
        else:
            inner = 'begin procedure zw; %s;\n%szw%s; ze: end' % (use, decl + ';\n' if decl else '', '; ' + lab if lab else '')
        if place == 'program':
            if k is not None and k != 'std':
                return None
            src = inner
        elif k in (None, 'std'):
            src = 'begin procedure zd; %s; zd end' % inner if place == 'proc' else 'begin integer zd; %s end' % inner
        else:
            p, d, a, _ = KINDS[k]
            d = d.replace('#', '11')
            zo = 'procedure zo(n); value n; integer n; print(n)'
            call = inner
            ds = ['integer zi']
            pro = [zo]
            if p < 3:
                ds.append(d)
            elif p == 3:
                pro.append(d)
            if place == 'proc':
                pro.append('procedure zd; ' + inner)
                call = 'zd'
            src = 'begin ' + ';\n'.join(ds + pro) + ';\nzi := 1; ' + (a.replace('#', '11') + '; ' if a else '') + call + '; goto zend; zl11: '
            src += '@: ' if k == 'label' else ''
            src += 'print(7); zend: end'
        src = plain(src.replace('@', name)) + '\n'
        return H.Case('order %s %s %s %d' % desc, [H.prog_req(src)], H.expect_run('ok', '5'), src)


def main(tier):
    return H.check('P24', [Order(), Standard(), Scopes(), Long(), Sets(), Pairs()], tier)
