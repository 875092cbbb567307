"""A small Algol 60 abstract syntax, its printer (to the source language the
X1 compiler reads) and a reference interpreter (the model).

Expressions (tuples):
  ('n', int)  ('r', text)  ('b', bool)  ('str', text)
  ('v', name)  ('s', name, [subscripts])  ('c', name, [actuals])
  ('o', op, a, b)  ('u', op, a)  ('if', c, a, b)  ('p', e)  explicit parentheses
Statements:
  (':=', [lhs...], e)  ('if', c, s[, s])  ('for', lhs, [elements], s)
  ('goto', d)  ('blk', decls, stmts)  ('cmp', stmts)  ('lab', name, s)
  ('call', name, [actuals])  ('nop',)
For elements: ('e', x)  ('su', a, b, c)  ('w', x, cond)
Designational: ('v', label)  ('s', switch, [index])  ('if', c, d, d)
Declarations:
  ('var', type, [names])  ('arr', type, [names], [(lo, hi)...])
  ('own', type, [names])  ('sw', name, [designational...])
  ('proc', type or None, name, [(param, spec, byvalue)], body)
"""
from fractions import Fraction as F
from . import num
from .num import RefError

KEYWORDS = '''begin end integer real boolean array procedure own switch value label
string if then else for do step until while goto true false comment'''.split()

PREC = {'↑': 10, '×': 9, '/': 9, '÷': 9, '+': 8, '-': 8,
        '<': 7, '≤': 7, '=': 7, '≥': 7, '>': 7, '≠': 7,
        '¬': 6, '∧': 5, '∨': 4, '⊃': 3, '≡': 2}


def U(word):
    """Underlined word delimiter."""
    return ''.join('_' + c for c in word)


# ---------------------------------------------------------------- printer
def pe(e, prec=0):
    k = e[0]
    if k == 'n':
        return str(e[1]) if e[1] >= 0 else ('(%d)' % e[1] if prec > 0 else str(e[1]))
    if k == 'r':
        return e[1]
    if k == 'b':
        return U('true' if e[1] else 'false')
    if k == 'v':
        return e[1]
    if k == 's':
        return '%s[%s]' % (e[1], ','.join(pe(x) for x in e[2]))
    if k == 'c':
        return '%s(%s)' % (e[1], ','.join(pe(x) for x in e[2])) if e[2] else e[1]
    if k == 'str':
        return '`%s\'' % e[1]
    if k == 'p':
        return '(' + pe(e[1]) + ')'
    if k == 'o':
        p = PREC[e[1]]
        # all operators associate to the left
        s = '%s %s %s' % (pe(e[2], p), e[1], pe(e[3], p + 1))
        return '(' + s + ')' if p < prec else s
    if k == 'u':
        p = PREC['¬'] if e[1] == '¬' else PREC['+']
        s = e[1] + pe(e[2], p + 1 if e[1] != '¬' else p + 1)
        return '(' + s + ')' if p < prec or (prec > p) or (e[1] != '¬' and prec >= 9) else s
    if k == 'if':
        s = '%s %s %s %s %s %s' % (U('if'), pe(e[1]), U('then'), pe(e[2], 1), U('else'), pe(e[3]))
        return '(' + s + ')' if prec > 0 else s
    raise ValueError(e)


def pd(d):
    """declaration"""
    k = d[0]
    if k in ('var', 'own'):
        return (U('own') + ' ' if k == 'own' else '') + U(d[1]) + ' ' + ','.join(d[2])
    if k in ('arr', 'ownarr'):
        ty = '' if d[1] is None else U(d[1]) + ' '
        return (U('own') + ' ' if k == 'ownarr' else '') + ty + U('array') + ' %s[%s]' % (
            ','.join(d[2]), ','.join('%s:%s' % (pe(a), pe(b)) for a, b in d[3]))
    if k == 'sw':
        return U('switch') + ' %s := %s' % (d[1], ','.join(pe(x) for x in d[2]))
    if k == 'proc':
        s = (U(d[1]) + ' ' if d[1] else '') + U('procedure') + ' ' + d[2]
        if d[3]:
            s += '(' + ','.join(p[0] for p in d[3]) + ')'
        s += ';'
        vals = [p[0] for p in d[3] if p[2]]
        if vals:
            s += ' ' + U('value') + ' ' + ','.join(vals) + ';'
        for p in d[3]:
            if p[1]:
                s += ' ' + ' '.join(U(w) for w in p[1].split()) + ' ' + p[0] + ';'
        return s + '\n' + ps(d[4])
    if k == 'raw':
        return d[1]
    raise ValueError(d)


def ps(s):
    k = s[0]
    if k == ':=':
        return ''.join(pe(l) + ' := ' for l in s[1]) + pe(s[2])
    if k == 'if':
        r = '%s %s %s %s' % (U('if'), pe(s[1]), U('then'), ps(s[2]))
        if len(s) > 3 and s[3] is not None:
            r += ' ' + U('else') + ' ' + ps(s[3])
        return r
    if k == 'for':
        els = []
        for x in s[2]:
            if x[0] == 'e':
                els.append(pe(x[1]))
            elif x[0] == 'su':
                els.append('%s %s %s %s %s' % (pe(x[1]), U('step'), pe(x[2]), U('until'), pe(x[3])))
            else:
                els.append('%s %s %s' % (pe(x[1]), U('while'), pe(x[2])))
        return '%s %s := %s %s %s' % (U('for'), pe(s[1]), ', '.join(els), U('do'), ps(s[3]))
    if k == 'goto':
        return U('goto') + ' ' + pe(s[1])
    if k == 'blk':
        return U('begin') + ' ' + ''.join(pd(d) + ';\n' for d in s[1]) + ';\n'.join(ps(x) for x in s[2]) + '\n' + U('end')
    if k == 'cmp':
        return U('begin') + ' ' + '; '.join(ps(x) for x in s[1]) + ' ' + U('end')
    if k == 'lab':
        return s[1] + ': ' + ps(s[2])
    if k == 'call':
        return s[1] + ('(%s)' % ','.join(pe(x) for x in s[2]) if s[2] else '')
    if k == 'nop':
        return ''
    raise ValueError(s)


DEEP = None         # (shape, number of levels) put around every program


def deepen(p):
    """the program inside blocks or procedures nested in each other"""
    if not DEEP:
        return p
    shape, n = DEEP
    if p[0] == 'blk':
        # the order required outside the outermost block
        order = {'var': 0, 'own': 0, 'arr': 1, 'ownarr': 1, 'sw': 2, 'proc': 3}
        p = ('blk', sorted(p[1], key=lambda d: order[d[0]]), p[2])
    for k in range(n):
        v = 'zz%d' % k
        if shape == 'blocks' or shape == 'mixed' and k % 2:
            p = ('blk', [('var', 'integer', [v])], [(':=', [('v', v)], ('n', k)), p, ('call', 'print', [('v', v)])])
        else:
            p = ('blk', [('var', 'integer', [v]), ('proc', None, 'zp%d' % k, [], p)], [(':=', [('v', v)], ('n', k)), ('call', 'zp%d' % k, []), ('call', 'print', [('v', v)])])
    return p


def source(prog):
    return ps(deepen(prog)) + '\n'


# ------------------------------------------------------------ interpreter
class Goto(Exception):
    def __init__(self, name, env):
        self.name, self.env = name, env


class TooLong(Exception):
    pass


class Cell:
    __slots__ = ('type', 'v')

    def __init__(self, ty):
        self.type = ty
        self.v = None


class Arr:
    __slots__ = ('type', 'bounds', 'd')

    def __init__(self, ty, bounds):
        self.type, self.bounds, self.d = ty, bounds, {}


class Proc:
    __slots__ = ('decl', 'env')

    def __init__(self, decl, env):
        self.decl, self.env = decl, env


class Switch(Proc):
    pass


class Label:
    __slots__ = ('name', 'env')

    def __init__(self, name, env):
        self.name, self.env = name, env


class Thunk:
    """actual parameter called by name: expression in the caller's scope"""
    __slots__ = ('e', 'env')

    def __init__(self, e, env):
        self.e, self.env = e, env


class Env:
    __slots__ = ('b', 'up', 'labels')

    def __init__(self, up):
        self.b, self.up, self.labels = {}, up, None

    def find(self, n):
        e = self
        while e is not None:
            if n in e.b:
                return e.b[n]
            e = e.up
        return None


BUILTIN_FUN = {'abs', 'sign', 'sqrt', 'sin', 'cos', 'arctan', 'ln', 'exp', 'entier', 'read', 'EVEN', 'RESYM', 'XEEN',
               'SUM', 'RANDOM'}
_OWN = object()


def coerce(ty, v):
    if ty == 'integer':
        if num.istie(v) and v < 0:
            raise Undef('negative tie')
        return num.toint(v)
    if ty == 'real':
        return num.toreal(v)
    return v


Undef = num.Undef   # the program's meaning is not defined by the language: skip the case


class Interp:
    def __init__(self, maxsteps=200000, inp=None):
        self.out = []
        self.steps = 0
        self.maxsteps = maxsteps
        self.labcache = {}
        self.own = {}
        self.depth = 0
        self.inp = inp
        self.checked = False     # one-dimensional subscripts out of bounds are errors

    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise TooLong()

    # -- programs
    def run(self, prog):
        """returns ('ok'|'error', output)"""
        try:
            self.exec(deepen(prog), Env(None))
            return 'ok', ''.join(self.out)
        except RefError as e:
            self.err = str(e)
            return 'error', ''.join(self.out)

    # -- labels of a statement list (not descending into blocks)
    def labels(self, stmts):
        key = id(stmts)
        if key in self.labcache:
            return self.labcache[key][1]
        t = {}

        def scan(s, path):
            k = s[0]
            if k == 'lab':
                t[s[1]] = path
                scan(s[2], path + ['l'])
            elif k == 'cmp':
                for i, x in enumerate(s[1]):
                    scan(x, path + [i])
            elif k == 'if':
                scan(s[2], path + [2])
                if len(s) > 3 and s[3] is not None:
                    scan(s[3], path + [3])
        for i, s in enumerate(stmts):
            scan(s, [i])
        self.labcache[key] = (stmts, t)
        return t

    def exec_list(self, stmts, env, path=None):
        i = 0
        if path is not None:
            i, path = path[0], path[1:]
        while i < len(stmts):
            self.exec(stmts[i], env, path)
            path = None
            i += 1

    def exec_body(self, stmts, env):
        """statement list that owns its labels"""
        labs = self.labels(stmts)
        env.labels = labs
        for l in labs:
            env.b[l] = Label(l, env)
        path = None
        while True:
            try:
                self.exec_list(stmts, env, path)
                return
            except Goto as g:
                if g.env is not env:
                    raise
                path = labs[g.name]

    def exec(self, s, env, path=None):
        self.tick()
        k = s[0]
        if path == [] or path is None:
            path = None
        if k == ':=':
            dests = [self.lval(l, env) for l in s[1]]
            v = self.ev(s[2], env)
            for d in dests:
                d(v)
        elif k == 'call':
            self.pcall(s, env)
        elif k == 'if':
            if path is not None:
                self.exec(s[path[0]], env, path[1:])
            elif self.evb(s[1], env):
                self.exec(s[2], env)
            elif len(s) > 3 and s[3] is not None:
                self.exec(s[3], env)
        elif k == 'cmp':
            self.exec_list(s[1], env, path)
        elif k == 'lab':
            self.exec(s[2], env, path[1:] if path else None)
        elif k == 'goto':
            self.goto(s[1], env)
        elif k == 'blk':
            e = Env(env)
            self.declare(s[1], e)
            self.exec_body(s[2], e)
        elif k == 'for':
            self.for_(s, env)
        elif k == 'nop':
            pass
        else:
            raise ValueError(s)

    def goto(self, d, env):
        l = self.desig(d, env)
        if l is not None:
            raise Goto(l.name, l.env)

    def desig(self, d, env):
        if d[0] == 'if':
            return self.desig(d[2] if self.evb(d[1], env) else d[3], env)
        if d[0] == 'p':
            return self.desig(d[1], env)
        b = env.find(d[1])
        while isinstance(b, Thunk):
            if b.e[0] == 'v':
                nb = b.env.find(b.e[1])
                if d[0] == 's' and not isinstance(nb, (Thunk, Switch)):
                    raise ValueError(d)
                b = nb
            else:
                return self.desig(b.e, b.env)
        if d[0] == 'v':
            assert isinstance(b, Label), d
            return b
        i = self.ev(d[2][0], env)
        i = num.toint(i)
        sw = b.decl[2]
        if not 1 <= i <= len(sw):
            raise Undef('switch index')     # the X1 system does not define it
        return self.desig(sw[i - 1], b.env)

    def declare(self, decls, e):
        for d in decls:
            k = d[0]
            if k == 'var':
                for n in d[2]:
                    e.b[n] = Cell(d[1])
            elif k == 'own':
                for n in d[2]:
                    c = self.own.get((id(d), n))
                    if c is None:
                        c = self.own[(id(d), n)] = Cell(d[1])
                        c.v = {'integer': 0, 'real': F(0), 'boolean': True}[d[1]]
                    e.b[n] = c
            elif k == 'ownarr':
                bs = [(num.toint(self.ev(a, e)), num.toint(self.ev(b, e))) for a, b in d[3]]
                for n in d[2]:
                    c = self.own.get((id(d), n))
                    if c is None:
                        c = self.own[(id(d), n)] = Arr(d[1] or 'real', bs)
                    e.b[n] = c
            elif k == 'arr':
                bs = [(num.toint(self.ev(a, e)), num.toint(self.ev(b, e))) for a, b in d[3]]
                for n in d[2]:
                    e.b[n] = Arr(d[1] or 'real', bs)
            elif k == 'proc':
                e.b[d[2]] = Proc(d, e)
            elif k == 'sw':
                e.b[d[1]] = Switch(d, e)
            elif k != 'raw':
                raise ValueError(d)

    # -- for statement (Revised Report 4.6.4)
    def for_(self, s, env):
        def body():
            e = Env(env)
            b = s[3]
            self.exec_body(b[1] if b[0] == 'cmp' else [b], e)

        for el in s[2]:
            if el[0] == 'e':
                self.lval(s[1], env)(self.ev(el[1], env))
                self.tick()
                body()
            elif el[0] == 'w':
                while True:
                    self.tick()
                    self.lval(s[1], env)(self.ev(el[1], env))
                    if not self.evb(el[2], env):
                        break
                    body()
            else:
                self.lval(s[1], env)(self.ev(el[1], env))
                while True:
                    self.tick()
                    v = self.ev(s[1], env)
                    st = num.sign(self.ev(el[2], env))
                    lim = self.ev(el[3], env)
                    if (st > 0 and v > lim) or (st < 0 and v < lim):
                        break
                    body()
                    self.lval(s[1], env)(num.add(self.ev(s[1], env), self.ev(el[2], env)))

    # -- variables
    def index(self, a, idx):
        if len(idx) != len(a.bounds):
            raise Undef('dimensions')
        for i, (lo, hi) in zip(idx, a.bounds):
            if not lo <= i <= hi:
                if self.checked and len(idx) == 1:
                    raise RefError('subscript')
                raise Undef('subscript')
        return idx

    def subs(self, e, env):
        idx = []
        for x in e[2]:
            v = self.ev(x, env)
            if num.istie(v) and v < 0:
                raise Undef('tie')
            idx.append(num.toint(v))
        return tuple(idx)

    def array(self, name, env):
        b = env.find(name)
        while isinstance(b, Thunk):
            b = b.env.find(b.e[1])
        return b

    def lval(self, l, env):
        if l[0] == 's':
            a = self.array(l[1], env)
            i = self.index(a, self.subs(l, env))

            def st(v):
                a.d[i] = coerce(a.type, v)
            return st
        b = env.find(l[1])
        if isinstance(b, Cell):
            def st(v):
                b.v = coerce(b.type, v)
            return st
        if isinstance(b, Thunk):
            if b.e[0] not in 'vs':
                raise RefError('not a variable')
            return self.lval(b.e, b.env)
        if isinstance(b, Proc):
            # value of the innermost activation of that function
            e = env
            while True:
                if e is None:
                    raise Undef('function value outside')
                r = e.b.get('=' + l[1])
                if r is not None:
                    break
                e = e.up

            def st(v):
                if r.type is not None:
                    r.v = coerce(r.type, v)
            return st
        raise ValueError(l)

    # -- procedures
    def bind(self, p, args, env):
        decl = p.decl
        if len(args) != len(decl[3]):
            raise Undef('parameter count')
        e = Env(p.env)
        for (pn, spec, byval), a in zip(decl[3], args):
            if byval:
                if spec.endswith('array'):
                    ty = spec.split()[0] if ' ' in spec else 'real'
                    src = self.array(a[1], env)
                    na = Arr(ty, src.bounds)
                    na.d = {k: coerce(ty, v) for k, v in src.d.items()}
                    e.b[pn] = na
                else:
                    c = Cell(spec)
                    c.v = coerce(spec, self.ev(a, env))
                    e.b[pn] = c
            else:
                e.b[pn] = Thunk(a, env)
        return e

    def invoke(self, p, args, env, rtype):
        self.depth += 1
        if self.depth > 400:
            raise TooLong()
        self.tick()
        try:
            e = self.bind(p, args, env)
            r = Cell(p.decl[1] if rtype else None)
            e.b['=' + p.decl[2]] = r
            body = p.decl[4]
            if body[0] == 'blk':
                e2 = Env(e)
                self.declare(body[1], e2)
                self.exec_body(body[2], e2)
            else:
                self.exec_body(body[1] if body[0] == 'cmp' else [body], e)
            return r.v
        finally:
            self.depth -= 1

    def pcall(self, s, env):
        name, args = s[1], s[2]
        b = env.find(name)
        if b is None:
            return self.builtin_stmt(name, args, env)
        while isinstance(b, Thunk):
            if b.e[0] not in 'vc' or (b.e[0] == 'c' and b.e[2]):
                # a statement calling an expression: evaluates it
                raise Undef('call of expression')
            nm, benv = b.e[1], b.env
            nb = benv.find(nm)
            if nb is None:
                return self.builtin_stmt(nm, args, env)
            b = nb
        if not isinstance(b, Proc):
            raise Undef('not a procedure')
        self.invoke(b, args, env, False)

    def evb(self, e, env):
        v = self.ev(e, env)
        assert isinstance(v, bool), e
        return v

    def ev(self, e, env):
        k = e[0]
        if k == 'n':
            return e[1] if abs(e[1]) <= num.IMAX else num.rnd(F(e[1]))
        if k == 'b':
            return e[1]
        if k == 'r':
            return num.rnd(lit(e[1]))
        if k == 'p':
            return self.ev(e[1], env)
        self.steps += 1
        if k == 'v':
            return self.var(e, env)
        if k == 's':
            a = self.array(e[1], env)
            i = self.index(a, self.subs(e, env))
            v = a.d.get(i)
            if v is None:
                raise Undef('uninitialized element')
            return v
        if k == 'c':
            return self.fcall(e[1], e[2], env)
        if k == 'o':
            op = e[1]
            a = self.ev(e[2], env)
            b = self.ev(e[3], env)
            return OPS[op](a, b)
        if k == 'u':
            a = self.ev(e[2], env)
            return (not a) if e[1] == '¬' else (-a if e[1] == '-' else a)
        if k == 'if':
            return self.ev(e[2] if self.evb(e[1], env) else e[3], env)
        raise ValueError(e)

    def var(self, e, env):
        b = env.find(e[1])
        if isinstance(b, Cell):
            if b.v is None:
                raise Undef('uninitialized ' + e[1])
            return b.v
        if isinstance(b, Thunk):
            return self.ev(b.e, b.env)
        if isinstance(b, Proc):
            v = self.invoke(b, [], env, True)
            if v is None:
                raise Undef('no function value')
            return v
        if b is None:
            return self.fcall(e[1], [], env)
        raise Undef('bad operand')

    def fcall(self, name, args, env):
        b = env.find(name)
        while isinstance(b, Thunk):
            if b.e[0] not in 'vc' or (b.e[0] == 'c' and b.e[2]):
                raise Undef('call of expression')
            name = b.e[1]
            b = b.env.find(name)
        if b is None:
            return self.builtin_fun(name, args, env)
        v = self.invoke(b, args, env, True)
        if v is None:
            raise Undef('no function value')
        return v

    def builtin_fun(self, name, args, env):
        a = [self.ev(x, env) for x in args]
        if name == 'abs':
            return num.toreal(abs(a[0]))
        if name == 'sign':
            return num.sign(a[0])
        if name in ('sqrt', 'sin', 'cos', 'arctan', 'ln', 'exp', 'entier'):
            return getattr(num, name)(a[0])
        if name == 'EVEN':
            return 1 if a[0] % 2 == 0 else -1
        if self.inp is not None:
            return self.inp(name, a)
        raise ValueError(name)

    def builtin_stmt(self, name, args, env):
        if name == 'PRINTTEXT':
            a = args[0]
            while a[0] == 'v':
                t = env.find(a[1])
                a, env = t.e, t.env
            self.out.append(a[1])
            return
        a = [self.ev(x, env) for x in args]
        if name == 'print':
            self.out.append(' '.join(num.fmt((0 if v else 1) if isinstance(v, bool) else v) for v in a))
        elif name == 'NLCR':
            self.out.append('\n')
        elif name == 'TAB':
            self.out.append('\t')
        elif name == 'SPACE':
            self.out.append(' ' * max(0, a[0]))
        else:
            raise ValueError(name)


def lit(t):
    """Exact value of an unsigned number."""
    m, _, x = t.replace('@', '⏨').partition('⏨')
    x = int(x) if x else 0
    ip, _, fp = m.partition('.')
    if not ip and not fp:
        d = F(1)
    else:
        d = F(int((ip + fp) or '0'), 10 ** len(fp))
    return d * (F(10) ** x)


OPS = {
    '+': num.add, '-': num.sub, '×': num.mul, '/': num.div, '÷': num.idiv, '↑': num.power,
    '<': lambda a, b: a < b, '≤': lambda a, b: a <= b, '=': lambda a, b: a == b,
    '≥': lambda a, b: a >= b, '>': lambda a, b: a > b, '≠': lambda a, b: a != b,
    '∧': lambda a, b: a and b, '∨': lambda a, b: a or b,
    '⊃': lambda a, b: (not a) or b, '≡': lambda a, b: a == b,
}
