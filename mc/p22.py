"""P22: repetition uses no storage; bounded resources fail cleanly.

A simulator with room for 3000 cells (hook X1_STACK_LIMIT) makes every point
of exhaustion reachable.  Repeat: a statement is repeated more often than there
are cells left, then an array fills the stack; it must fit exactly when it fits
without the repetitions.  Exhaust: a statement is executed with every
number of cells left.  Depth: all depths of recursion up to the limit."""
import re
import shutil
import tempfile
from itertools import product
from . import harness as H, build as B
from .p24 import plain

REP = 64
STEP = 20

DECLS = """own integer ow; integer i, j, k, n, zi, zk, zsk, zq, zm, zn; real x, y, zfr; boolean b, c;
integer array A[1:9]; array X[1:3, 0:2]; boolean array Q[0:3]; own real array OA[1:3];
switch zsd := %(t)s; switch sw := la, lb, la; switch sx := if i > 5 then la else lb, sw[2], lb;
procedure p; k := k + 1;
procedure pv(a, d); value a, d; integer a; real d; begin k := a; x := d end;
procedure pn(a, d); integer a; real d; begin a := 3; x := d; a := a + 1 end;
procedure pa(a); integer array a; a[2] := a[1] + 1;
procedure pva(a, d); value a, d; integer array a; array d; begin a[1] := 4; d[1, 1] := a[1] end;
procedure pp(q); procedure q; q;
procedure pp2(q, r); procedure q, r; begin q(1, 2); r(k, 2) end;
procedure pf(f); real procedure f; x := f(1) + f(2);
procedure pl(l); label l; goto l;
procedure ps(s, e); value e; integer e; switch s; goto s[e];
procedure pst(s); string s; PRINTTEXT(s);
procedure pb(e); boolean e; b := e;
integer procedure f0; begin k := k + 1; f0 := k end;
integer procedure f1(a); value a; integer a; f1 := a + 1;
real procedure f2(a, d); real a, d; f2 := a × d + a;
boolean procedure fb(a); integer a; fb := a > 2;
integer procedure fac(a); value a; integer a; fac := if a < 2 then 1 else a × fac(a - 1);
integer procedure ack(a, d); value a, d; integer a, d; ack := if a = 0 then d + 1 else if d = 0 then ack(a - 1, 1) else ack(a - 1, ack(a, d - 1));
integer procedure fib(a); integer a; fib := if a < 2 then a else fib(a - 1) + fib(a - 2);
real procedure fj(l); label l; begin fj := 1; goto l end;
real procedure inner(m, f); value m; integer m; real f; inner := if m = 0 then f else inner(m - 1, f + 1);
procedure deep(m, l); value m; integer m; label l; begin integer u; array v[1:m + 1]; u := m; if m > 0 then deep(m - 1, l) else goto l end;
procedure deepn(m, e); value m; integer m; real e; if m > 0 then deepn(m - 1, e + 1) else x := e;
procedure loc(m); value m; integer m; begin integer u; array v[1:m]; integer array w[0:m, 1:2]; u := m; v[1] := u; w[m, 2] := u; begin array t[m:2 × m]; t[m] := v[1] end end;
procedure nest; begin integer u; procedure n1; begin real v; procedure n2; begin u := u + 1; v := u end; n2; k := v end; u := 1; n1 end;
"""
STMTS = {
    'integer := integer': 'k := j', 'real := integer': 'x := j', 'integer := real': 'k := y', 'real := real': 'x := y', 'boolean := relation': 'b := j > 1', 'own': 'ow := ow + 1; OA[2] := ow',
    'multiple': 'k := n := A[3] := j', 'multiple mixed': 'x := k := A[3] := 5', 'multiple arrays': 'A[1] := A[A[2]] := A[1] + 1', 'array elements': 'A[2] := A[3] + A[A[3]]', 'matrix': 'X[2, 1] := X[1, 2] × X[j, j]',
    'boolean array': 'Q[1] := ¬ Q[2] ∧ b', 'arithmetic': 'x := (j + 1.5) × (y - k) / (j - y + 9) + j ÷ 3', 'power': 'x := 2 ↑ j + 1.5 ↑ j + 1.5 ↑ y', 'logic': 'b := (b ∨ c) ⊃ (¬ b ≡ c) ∧ b',
    'relations': 'b := j < 1 ∧ j ≤ y ∨ x = 2 ∧ y ≥ 2 ∨ x > k ∧ k ≠ j', 'negation': 'k := -j; x := -y; b := ¬ b', 'conditional expression': 'x := if b then j else y', 'conditional boolean': 'b := if c then b else x < 1',
    'nested conditional': 'k := (if b then j else 2) + (if c then 1 else if b then 2 else 3)', 'conditional subscript': 'A[if b then 1 else 2] := 3',
    'if': 'if b then k := 1', 'if else': 'if c then k := 1 else k := 2', 'if chain': 'if b then p else if c then p else k := 3', 'empty': '', 'compound': 'begin k := 1; begin end; k := 2 end',
    'block': 'begin integer u, v; u := v := 1 end', 'block with array': 'begin integer u; array v[1:j + 3, 0:j]; v[1, 1] := 2 end', 'block with arrays': 'begin integer array u, v[1:j + 1]; boolean array w[j:9]; u[1] := v[2] := 1; w[9] := true end',
    'block with procedure': 'begin integer procedure u(v); value v; integer v; u := v + j; k := u(2) end', 'block with switch': 'begin integer u; switch v := lu, lv; u := 2; goto v[u]; lu: u := 3; lv: end',
    'nested blocks': 'begin real u; begin array v[1:3]; begin integer w; w := 1; u := v[2] := w end end end', 'while': 'n := 0; for k := n while n < 3 do n := n + 1',
    'step': 'for k := 1 step 1 until 3 do n := k', 'step down': 'for k := 3 step -1 until 1 do n := k', 'real step': 'for x := 0 step 0.5 until 2 do n := 1', 'for list': 'for k := 1, 3, j, f0 do n := k',
    'for mixed': 'for k := 1, 2 step 1 until 4, k + 1 while k < 9 do n := k', 'for element': 'for A[2] := 1 step 1 until 3 do n := 1', 'for none': 'for k := 3 step 1 until 1 do n := k',
    'for expressions': 'for k := f0 - k step f1(0) until f1(j) do n := k', 'for nested': 'for k := 1, 2 do for n := 1 step 1 until 2 do A[n] := k',
    'for block': 'for k := 1 step 1 until 3 do begin array u[1:k]; u[k] := k end', 'for function': 'for x := f2(k, y), y while x < 0 do n := 2', 'for exits': 'for k := 1 step 1 until 9 do if k = 3 then goto lz',
    'for while exits': 'for k := k while true do for n := 1, 2 do goto lz', 'for list exits': 'for A[1] := 1, 2, 3 do begin array u[1:5]; goto lz end',
    'for real exits': 'for x := y step 0.25 until 9 do for k := 1 step 1 until 5 do if x > 3 then goto lz',
    'p': 'p', 'pv': 'pv(j, y)', 'pv converts': 'pv(y, j)', 'pn': 'pn(k, y)', 'pn element': 'pn(A[j], X[1, 1])', 'pn expression': 'pn(k, k + y × 2)', 'pn real': 'pn(n, x)', 'pa': 'pa(A)', 'pva': 'pva(A, X)',
    'pp': 'pp(p); pp(nest)', 'pp2': 'pp2(pv, pn)', 'pf': 'pf(f1); pf(fac)', 'pf standard': 'pf(sin); pf(abs); pf(sign); pf(entier); pf(arctan); pf(ln); pf(exp); pf(sqrt); pf(cos)', 'pl': 'pl(lz)', 'pl function': 'pl(if f1(j) > 2 then lz else la)', 'pl switch function': 'pl(sw[f1(1)])', 'pl function for': 'for k := 1, 2, 3 do pl(if f1(j) > f0 - 100 then lz else la)', 'ps': 'ps(sw, 2)', 'ps conditional': 'ps(sx, 1)',
    'pst': "pst(`s')", 'pb': 'pb(b ∧ c); pb(j > 2); pb(fb(j))', 'f0': 'k := 1; k := f0 + f0 × f0', 'f1': 'k := f1(f1(f1(j)))', 'f2': 'x := f2(f2(y, j), f2(2, 3))', 'fb': 'b := fb(j) ∨ fb(k + 1)', 'fac': 'k := fac(5)',
    'ack': 'k := ack(2, 2)', 'fib': 'k := fib(6)', 'inner': 'x := inner(4, y)', 'deepn': 'deepn(5, y)', 'loc': 'loc(j + 2)', 'nest': 'nest', 'function as subscript': 'A[f1(1)] := A[f1(f1(1))]', 'function in condition': 'if fb(f1(j)) then k := f0',
    'function as actual': 'pn(k, f2(y, f1(j)))', 'function statement': 'k := 2; fac(3); f0', 'standard functions': 'x := sin(1) + cos(1) + arctan(y) + ln(2) + exp(1) + sqrt(2) + abs(-j) + sign(y) + entier(y)',
    'EVEN': 'k := EVEN(j)', 'SUM': 'x := SUM(k, 1, 3, A[k] × y)', 'SUM of SUM': 'x := SUM(k, 1, 3, SUM(n, k, 3, X[n, 1] + f1(k)))', 'read': 'x := read', 'RESYM': 'k := RESYM', 'RANDOM': 'SETRANDOM(0.5); x := RANDOM',
    'print': 'print(j); print(x); print(b); print(j, y)', 'output': "FIXT(3, 2, y); ABSFIXT(4, 1, x); FLOT(5, 2, y); SPACE(2); NLCR; TAB; PRSYM(10); PRINTTEXT(`text')", 'output of functions': 'FIXT(f1(2), f1(1), f2(y, j)); SPACE(f1(1)); PRSYM(f1(9))',
    'SUM jump': 'x := SUM(k, 1, 3, fj(lz))', 'goto': 'goto lz', 'goto switch': 'goto sw[1]', 'goto switch expression': 'goto sx[f1(1)]', 'goto conditional': 'goto if b then la else lz', 'goto switch switch': 'goto sx[2]',
    'goto out of block': 'begin array u[1:3]; u[1] := 1; goto lz end', 'goto out of blocks': 'begin array u[1:3]; begin integer v; v := 2; begin array w[1:v]; goto lb end end end',
    'goto out of function': 'x := 1 + fj(lz)', 'goto out of subscript': 'A[fj(lz)] := 3', 'goto out of value': 'A[3] := k := 2 × (1 + fj(la))', 'goto out of actual': 'pv(1, fj(lz))', 'goto out of name': 'pn(k, fj(lz))',
    'goto out of names': 'x := f2(f2(1, fj(lb)), 2)', 'goto out of condition': 'if fj(lz) > 1 then k := 2', 'goto out of for': 'for k := 1, fj(lz) do n := 1', 'goto out of step': 'for k := 1 step fj(lz) until 5 do n := 1',
    'goto out of until': 'for k := 1 step 1 until fj(la) do n := 1', 'goto out of bounds': 'begin array u[1:fj(lz)]; u[1] := 1 end', 'goto out of second bound': 'begin array u[1:5, 1:fj(lb)], v[1:3]; u[1, 1] := 1 end', 'goto out of switch index': 'goto sw[fj(lz)]',
    'goto out of output': 'FIXT(3, 2, fj(lz))', 'goto out of print': 'print(1, fj(lz))', 'goto out of standard': 'x := sin(1 + fj(lz))', 'goto out of multiple': 'A[1] := X[1, 1] := Q_fj', 'deep': 'deep(5, lz)', 'deep conditional': 'deep(3, if b then la else lb)',
    'pl in block': 'begin array u[1:4]; pl(lz) end', 'pl local': 'begin array u[1:4]; pl(lu); lu: end', 'pl in for': 'for k := 1, 2, 3 do pl(lz)', 'local exit': 'begin array u[1:3]; procedure pq; begin array v[1:2]; goto lu end; pq; lu: u[1] := 1 end',
    'goto back': 'n := 0; begin integer u; u := 0; lu: u := u + 1; if u < 4 then goto lu end', 'goto into loop end': 'for k := 1 step 1 until 3 do begin integer u; goto lu; u := 1; lu: end',
}
STMTS['goto out of multiple'] = 'A[1] := A[2] := k := fj(lz)'
JUMPS = {k for k, v in STMTS.items() if any(w in v for w in ('lz', 'la', 'lb', 'sw', 'sx'))}

WRAP = {
    'plain': '%s', 'if': 'if j > 0 then begin %s end', 'else': 'if j < 0 then k := 1 else begin %s end', 'block': 'begin integer zu; zu := 3; %s end', 'array block': 'begin array zv[1:j + 2]; zv[1] := 2; %s end',
    'for list': 'for zi := 1, 2 do begin %s end', 'for step': 'for zi := 1 step 1 until 2 do begin %s end', 'for real': 'for zfr := 1 step 0.5 until 2 do begin %s end', 'for while': 'zi := 0; for zi := zi + 1 while zi < 3 do begin %s end',
    'procedure': 'begin procedure zp; begin integer zu; %s end; zp end', 'value procedure': 'begin procedure zp(zn, zm); value zn, zm; integer zn; real zm; begin %s end; zp(j, y) end',
    'name procedure': 'begin procedure zp(zn); integer zn; begin %s; zn := zn + 1 end; zp(A[4]) end', 'function': 'begin integer procedure zf; begin zf := 2; %s; zf := 3 end; k := 1 + zf × 2 end',
    'thunk': 'begin real procedure zf; begin array za[1:2]; zf := 2; %s; zf := 3 end; pn(k, 1 + zf × 2) end', 'subscript': 'begin integer procedure zf; begin zf := 2; %s; zf := 3 end; A[zf] := A[1] + A[zf] end',
    'formal': 'begin procedure zp; begin %s end; pp(zp) end', 'value array procedure': 'begin procedure zp(zn); value zn; integer array zn; begin %s end; zp(A) end',
    'recursion': 'begin procedure zp(zn); value zn; integer zn; begin array za[1:zn + 1]; if zn > 0 then zp(zn - 1) else begin %s end end; zp(2) end',
    'condition': 'begin integer procedure zf; begin zf := 2; %s; zf := 3 end; if zf > 1 then k := zf end', 'for limit': 'begin integer procedure zf; begin zf := 2; %s; zf := 3 end; for zk := 1 step zf until zf do k := 1 end',
    'bound': 'begin integer procedure zf; begin zf := 2; %s; zf := 3 end; begin array zv[1:zf, 0:zf]; zv[1, 1] := 1 end end', 'SUM': 'begin integer procedure zf; begin zf := 2; %s; zf := 3 end; x := SUM(zsk, 1, 2, zf) end',
    'output': 'begin integer procedure zf; begin zf := 2; %s; zf := 3 end; FIXT(zf, zf, zf) end',
}

# where all this happens: %(d)s declarations, %(b)s the repetition, %(m)s fill size
PREP = """zm := read; zn := read; ow := 0; i := 0; j := 2; k := 1; n := 1; x := 1.5; y := 2.5; b := true; c := false;
for i := 1 step 1 until 9 do A[i] := i; for i := 1, 2, 3 do for n := 0, 1, 2 do X[i, n] := n; Q[0] := Q[1] := Q[2] := Q[3] := true; OA[1] := OA[2] := OA[3] := 0; n := 1; i := 0;
"""
BODY = PREP + """lr: if i = zn then goto lf; i := i + 1;
%(s)s goto lr; la: k := 2; goto lz; lb: k := 3; lz: goto zsd[zq];
lf: begin integer array fill[1:zm]; fill[zm] := 77; NLCR; PRINTTEXT(`done'); print(fill[zm] + i); NLCR end"""
EXH = PREP + """begin integer array fill[1:zm]; fill[zm] := 77; zq := 1; SETRANDOM(0.5);
%(s)s; if fill[zm] ≠ 77 then PRINTTEXT(`overwritten') end; goto lz; la: k := 2; goto lz; lb: k := 3; lz: NLCR; print(i, j, k, n, x, y); if b then PRINTTEXT(`b'); if c then PRINTTEXT(`c');
for i := 1 step 1 until 9 do print(A[i], X[1, 1]); zm1:"""
INIT = 'k := 1; n := 1; A[1] := 2; A[2] := 3; A[3] := 1'
INNER = DECLS.replace('own integer ow', 'integer ow').replace('own real array OA', 'array OA')

def places(body):
    return {
        'program': 'begin ' + DECLS + body + ' end',
        'block': 'begin integer j0; j0 := 3; begin ' + INNER + body + ' end end',
        'procedure': 'begin integer j0; procedure main; begin ' + INNER + body + ' end; j0 := 3; main end',
        'function in expression': 'begin real j0; real procedure main(u, v); value u; integer u; real v; begin ' + INNER + body
        + '; main := u end; procedure z(s); real s; j0 := s + 1; z(2 × main(1, j0) + 3) end',
    }


def repeat(place, stmts):
    t = ''.join('zq := %d; %s; %s; zm%d:\n' % (q + 1, INIT, x, q + 1) for q, x in enumerate(stmts))
    return plain(places(BODY)[place] % {'s': t, 't': ', '.join('zm%d' % (q + 1) for q in range(len(stmts)))}) + '\n'


def once(place, stmt):
    return plain(places(EXH)[place].replace('%(s)s', INIT + '; ' + stmt).replace('%(t)s', 'zm1')) + '\n'


DATA = b'1 2.5 -3 ' * 200
MAX = {}
_obj = {}


def obj(src):
    """the object program"""
    with open(H.BUILD + '/x1algol.lib') as f:
        lib = f.read()
    o = run_many([H.Req(['x1algc', 'p.a60', 't.lib'], [('p.a60', src), ('t.lib', lib)])])[0]
    return o.out.decode() if o.status == 0 else None


def run(x1, m, n, exe='x1small', cpu=10):
    return H.Req([exe, 'p.x1'], [('p.x1', x1)], b'%d %d ' % (m, n) + DATA, cpu=cpu, outmax=1 << 20)


LIMIT = 1 << 21


def run_many(reqs):
    d = tempfile.mkdtemp(dir='/dev/shm')
    try:
        return H.execute(reqs, d)
    finally:
        shutil.rmtree(d)


def calibrate():
    """the largest array that fits at each place"""
    H.BUILD = B.build(small=True)
    for form, prog in (('repeat', lambda p: repeat(p, ['k := 1'])), ('once', lambda p: once(p, 'k := 1'))):
        x = {p: obj(prog(p)) for p in places('')}
        x = {p: v for p, v in x.items() if v}
        lo = {p: 1 for p in x}
        hi = {p: LIMIT for p in x}
        while any(hi[p] - lo[p] > 1 for p in x):
            ps = [p for p in x if hi[p] - lo[p] > 1]
            mid = {p: (lo[p] + hi[p]) // 2 for p in ps}
            for p, o in zip(ps, run_many([run(x[p], mid[p], 0) for p in ps])):
                if o.status == 0:
                    lo[p] = mid[p]
                else:
                    hi[p] = mid[p]
        MAX.update({(form, p): lo.get(p, 100) for p in places('')})


def overflow(o):
    return o.status == 1 and b'Error' in o.err


class Repeat(H.Space):
    name = 'every statement repeated, then the stack filled'
    rule = '%d statements in 22 contexts (thorough: all pairs of contexts) at 4 places, 64 times, then a fill array of the largest size that fits without repetition, and one cell more (thorough: and 1 and 20 cells less and more)' % len(STMTS)

    def descs(self, tier):
        names = list(STMTS)
        groups = [tuple(names[i::-(-len(names) // PER)]) for i in range(-(-len(names) // PER))]
        for pl in places(''):
            for wr in WRAP:
                for g in groups:
                    yield (g, (wr,), pl)
        some = ('f0', 'goto', 'for exits', 'deep', 'pl local', 'goto out of names', 'goto out of value', 'pp2', 'pva', 'SUM of SUM', 'block with arrays', 'goto out of second bound', 'ps', 'for nested')
        for k, (a, b) in enumerate(product(WRAP, repeat=2)):
            if a != 'plain' and b != 'plain':
                for g in [some] if tier == 'quick' else groups:
                    yield (g, (a, b), list(places(''))[k % 4])

    def case(self, d):
        g, ws, pl = d
        ts = []
        for s in g:
            t = STMTS[s]
            for wr in ws:
                t = WRAP[wr].replace('%s', t if t else 'k := k')
            ts.append(t)
        src = repeat(pl, ts)
        x1 = obj(src)
        top = MAX['repeat', pl]
        ms = [1, top, top + 1] if self.tier == 'quick' else [1, top - STEP, top - 1, top, top + 1, top + STEP]

        def done(o, n):
            return o.status == 0 and re.findall(rb'\ndone(\d+)\n', o.out) == [b'%d' % (77 + n)]

        def judge(obs):
            for k, m in enumerate(ms):
                a, b = obs[2 * k], obs[2 * k + 1]
                if k == 0 and not done(a, 0):
                    return 'the program does not work', {'input': m}
                if done(a, 0) != done(b, REP) or not done(a, 0) and not overflow(a):
                    return 'storage is lost', {'array': m, 'without repetition': 'done' if done(a, 0) else 'overflow', 'with': 'done' if done(b, REP) else 'overflow'}
                if not done(b, REP) and not overflow(b):
                    return 'exhaustion is not reported', {'array': m}
            return None
        if x1 is None:
            return H.Case('repeat %s ... in %s at %s' % (g[0], ' in '.join(ws), pl), [H.prog_req(src)], lambda o: ('not compiled', {}), src)
        return H.Case('repeat %s ... in %s at %s' % (g[0], ' in '.join(ws), pl), [run(x1, m, n) for m in ms for n in (0, REP)], judge, src, REP * len(g), REP * len(g))


PER = 20


class Exhaust(H.Space):
    name = 'every statement with every number of cells left'
    rule = 'every statement in 3 combinations of context and place (thorough: all 23 contexts at 4 places) with 0 to 60 cells left and then every 5th number to 400: same output as with room, or an error'

    def descs(self, tier):
        for s in STMTS:
            for k, (wr, pl) in enumerate(product(WRAP, places(''))):
                if tier != 'quick' or (wr, pl) in (('plain', 'program'), ('thunk', 'procedure'), ('recursion', 'block')):
                    yield (s, wr, pl)

    def case(self, d):
        s, wr, pl = d
        src = once(pl, WRAP[wr].replace('%s', STMTS[s] or 'k := k'))
        x1 = obj(src)
        key = 'exhaust %s in %s at %s' % d
        if x1 is None:
            return H.Case(key, [H.prog_req(src)], lambda o: ('not compiled', {}), src)
        top = MAX['once', pl]
        ms = [1] + [top + 8 - r for r in (range(0, 68) if self.tier != 'quick' else list(range(0, 20)) + list(range(20, 68, 3)))] + [top - r for r in range(60, 401, 5 if self.tier != 'quick' else 17)]

        def judge(obs):
            ref = obs[0]
            if ref.status:
                return 'the program does not work', {'input': 1}
            fits = False
            for m, o in zip(ms[1:], obs[1:]):
                if o.status == 0:
                    if o.out != ref.out:
                        return 'another result when the stack is nearly full', {'array': m, 'stdout': ref.out.decode('utf-8', 'replace')}
                    fits = True
                elif fits:
                    return 'does not fit although it fitted with less room', {'array': m}
                elif not overflow(o):
                    return 'exhaustion is not reported', {'array': m}
                elif not ref.out.startswith(o.out):
                    return 'wrong output before the error', {'array': m, 'stdout': ref.out.decode('utf-8', 'replace')}
            if not fits:
                return 'needs more than 400 cells', {}
            return None
        return H.Case(key, [run(x1, m, 1) for m in ms], judge, src, len(ms), len(ms))


REC = {
    'value': ('procedure r(n); value n; integer n; begin k := k + 1; if n > 0 then r(n - 1) end', 'r(D)', 'D1'),
    'function': ('integer procedure r(n); value n; integer n; r := if n = 0 then 0 else r(n - 1) + 1', 'k := r(D)', 'D'),
    'function after': ('integer procedure r(n); value n; integer n; r := if n = 0 then 0 else 1 + r(n - 1)', 'k := r(D)', 'D'),
    'deep operands': ('integer procedure r(n); value n; integer n; r := if n = 0 then 0 else 3 - (2 - r(n - 1) × 1)', 'k := r(D)', 'D'),
    'real': ('real procedure r(n); value n; real n; if n < 0.25 then r := 0 else begin real v; v := r(n - 0.5); r := v + 0.5 end', 'k := r(D / 2) × 2', 'D'),
    'name': ('procedure r(n, e); value n; integer n, e; begin integer u; u := e; if n > 0 then r(n - 1, u + 1) else k := u end', 'r(D, 0)', 'D'),
    'name chain': ('procedure r(n, e); value n; integer n, e; if n > 0 then r(n - 1, e + 1) else k := e', 'r(D, 0)', 'D'),
    'assigned name': ('procedure r(n, e); value n; integer n, e; if n > 0 then r(n - 1, e) else e := D', 'r(D, k)', 'D'),
    'local arrays': ('procedure r(n); value n; integer n; begin integer array a[1:2]; a[2] := n; if n > 0 then r(n - 1); k := k + 1; a[1] := a[2]; if a[1] = n then m := m + 1 end', 'r(D); k := if k = m then k else -1', 'D1'),
    'value array': ('procedure r(n, a); value n, a; integer n; integer array a; begin a[1] := a[1] + 1; if n > 0 then r(n - 1, a) else k := a[1] end', 'r(D, A)', 'D1'),
    'array': ('procedure r(n, a); value n; integer n; integer array a; begin a[1] := a[1] + 1; if n > 0 then r(n - 1, a); k := a[1] end', 'r(D, A)', 'D1'),
    'mutual': ('procedure r(n); value n; integer n; begin integer v; v := n; k := k + 1; if n > 0 then s(v - 1) end; procedure s(n); value n; integer n; begin k := k + 1; if n > 0 then r(n - 1) end', 'r(D)', 'D1'),
    'nested procedure': ('procedure r(n); value n; integer n; begin procedure t; begin k := k + n; if n > 0 then r(n - 1) end; k := k - n + 1; t end', 'r(D)', 'D1'),
    'formal procedure': ('procedure r(n, q); value n; integer n; procedure q; begin procedure t; begin k := k + 1; q end; if n > 0 then r(n - 1, t) else q end; procedure nop', 'r(D, nop)', 'D'),
    'jump out': ('procedure r(n); value n; integer n; begin array a[1:2]; k := k + 1; if n > 0 then r(n - 1) else goto lx end', 'r(D)', 'D1'),
    'label': ('procedure r(n, l); value n; integer n; label l; begin k := k + 1; if n > 0 then r(n - 1, l) else goto l end', 'r(D, lx)', 'D1'),
    'label chain': ('procedure r(n, l); value n; integer n; label l; begin integer v; if n > 0 then r(n - 1, lv) else goto l; v := 1; lv: k := k + 1; goto l end', 'r(D, lx)', 'D'),
    'for': ('procedure r(n); value n; integer n; begin integer v; for v := 1, 2 do if v = 1 ∧ n > 0 then r(n - 1); k := k + v - 2 end', 'r(D)', 'D1'),
    'blocks': ('procedure r(n); value n; integer n; begin integer v; v := n; begin array a[0:1]; begin integer w; w := v; k := k + 1; if w > 0 then r(w - 1) end end end', 'r(D)', 'D1'),
    'boolean': ('boolean procedure r(n); value n; integer n; r := if n = 0 then true else ¬ r(n - 1)', 'k := if r(D) then 1 else 0', 'even'),
    'switch': ('switch sw := l1, l2; procedure r(n, s); value n; integer n; switch s; begin k := k + 1; if n > 0 then r(n - 1, s) else goto s[2] end', 'r(D, sw); l1: k := -1; l2:', 'D1'),
    'SUM': ('integer procedure r(n); value n; integer n; begin integer v; r := if n = 0 then 0 else SUM(v, 1, 1, r(n - 1) + 1) end', 'k := r(D)', 'D'),
}
REC['for'] = ('procedure r(n); value n; integer n; begin integer v; for v := 1, 2 do begin if v = 1 ∧ n > 0 then r(n - 1); if v = 2 then k := k + 1 end end', 'r(D)', 'D1')


class Depth(H.Space):
    name = 'all depths of recursion'
    rule = '22 kinds of recursion: every third (thorough: every) depth from 0 to 400 with 3000 cells (also from inside 2 contexts), and 2^k - 1, 2^k, 2^k + 1 to 2^19 (arrays as parameters: 2^11) with the full stack: the right result or an error, and an error only beyond every depth that works'

    def descs(self, tier):
        for r in REC:
            for inside in (0, 1, 2):
                if inside and tier == 'quick' and r not in ('value', 'name', 'jump out'):
                    continue
                yield (r, inside, 'x1small')
            yield (r, 0, 'x1sim')

    def case(self, d):
        r, inside, exe = d
        decl, call, exp = REC[r]
        body = 'D := read; k := m := 0; A[1] := 0; %s; lx: print(k, j)' % call
        ds = decl.replace('switch sw := l1, l2; ', '')
        arr = 'integer array A[1:3]; ' + ('switch sw := l1, l2; ' if 'switch sw' in decl else '')
        if inside == 0:
            src = 'begin integer D, k, m, j; %s %s; j := 5; %s end' % (arr, ds, body)
        elif inside == 1:
            src = 'begin integer j; procedure q(c); value c; integer c; begin integer D, k, m; %s %s; %s end; j := 5; q(3) end' % (arr, ds, body)
        else:
            src = 'begin integer j; real procedure q(c); real c; begin integer D, k, m; %s %s; q := c; %s end; j := 5; k: j := 5 + 0 × q(j + 1) end' % (arr, ds, body)
        src = plain(src) + '\n'
        x1 = obj(src)
        key = 'depth %s %d %s' % d
        if x1 is None:
            return H.Case(key, [H.prog_req(src)], lambda o: ('not compiled', {}), src)
        ns = [n for n in range(0, 401) if self.tier != 'quick' or n < 8 or n % 3 == inside] if exe == 'x1small' else sorted({n for k in (range(8, 20) if self.tier != 'quick' else (10, 15, 16, 19)) for n in (2 ** k - 1, 2 ** k, 2 ** k + 1)})

        def judge(obs):
            full = None
            for n, o in zip(ns, obs):
                v = {'D': n, 'D1': n + 1, 'even': 1 - n % 2}[exp]
                if o.status == 0:
                    if o.out.decode() != '%d 5' % v:
                        return 'wrong result of a deep recursion', {'depth': n, 'stdout': '%d 5' % v}
                    if full is not None:
                        return 'deeper recursion fits', {'depth': n, 'failed': full}
                elif not overflow(o) or o.out:
                    return 'exhaustion is not reported', {'depth': n}
                elif full is None:
                    full = n
            if full is not None and full < 20:
                return 'recursion fails', {'depth': full}
            return None
        if r == 'array' and exe == 'x1sim':
            ns = [n for n in ns if n < 3000]  # every element is reached through all the activations
        reqs = []
        for n in ns:
            q = run(x1, n, 0, exe, 60)
            q.input = b'%d ' % n
            reqs.append(q)
        return H.Case(key, reqs, judge, src, len(ns), len(ns))


class Many(H.Space):
    name = 'very many repetitions'
    rule = '24 statements repeated 20000 times (thorough: every statement 1500000 times, more than there are cells), with the full stack'

    SOME = ('real := integer', 'multiple arrays', 'conditional expression', 'block with array', 'block with procedure', 'for nested', 'for exits', 'pn expression', 'pva', 'pp2', 'pf', 'pf standard', 'pl', 'ps', 'f0', 'fac',
            'goto out of function', 'goto out of value', 'goto out of second bound', 'goto switch expression', 'deep', 'pl local', 'SUM', 'nest')

    def descs(self, tier):
        for s in self.SOME if tier == 'quick' else STMTS:
            yield (s, 'program' if tier == 'quick' else 'procedure', 20000 if tier == 'quick' else 1500000)

    def case(self, d):
        s, pl, n = d
        if s in ('read', 'RESYM', 'output', 'print', 'pst', 'output of functions', 'goto out of print', 'goto out of output', 'ack'):
            return None
        src = repeat(pl, [STMTS[s]])
        x1 = obj(src)
        key = 'many %s %s' % (s, pl)
        if x1 is None:
            return H.Case(key, [H.prog_req(src)], lambda o: ('not compiled', {}), src)

        def judge(obs):
            if obs[0].status or obs[0].out != b'\ndone%d\n' % (77 + n):
                return 'storage is lost', {'status': 0, 'stdout': 'done%d' % (77 + n)}
            return None
        return H.Case(key, [run(x1, 40000 if n < 1000000 else 5, n, 'x1sim', 400)], judge, src, n, n)


def main(tier):
    calibrate()
    sp = [Depth(), Exhaust(), Repeat(), Many()]
    for x in sp:
        x.tier = tier
    return H.check('P22', sp, tier, small=True)
