"""P17: the command line fails loudly and succeeds only when the program ran."""
import os, re
from itertools import product
from . import harness as H

GOOD = "_b_e_g_i_n PRINTTEXT(`ok') _e_n_d\n"
BAD = "_b_e_g_i_n PRINTTEXT(`no'); x := 1 _e_n_d\n"
RT = "_b_e_g_i_n _i_n_t_e_g_e_r i; PRINTTEXT(`a'); i := 0; i := 1 ÷ i; PRINTTEXT(`b') _e_n_d\n"
NEED = "_b_e_g_i_n _i_n_t_e_g_e_r i; print(SUM(i, 1, 4, i)) _e_n_d\n"

_obj = {}


def compiled(src):
    """the object program the real compiler makes"""
    if src not in _obj:
        import tempfile, shutil
        d = tempfile.mkdtemp(prefix='x1mc.')
        o = H.execute([H.Req(['x1algc', 'p.a60'], [('p.a60', src)])], d)[0]
        shutil.rmtree(d)
        _obj[src] = o.out.decode()
    return _obj[src]


def sumlib():
    with open(os.path.join(H.B.REPO, 'library', 'sum.lib')) as f:
        return f.read()


def files():
    return [('g.a60', GOOD), ('bad.a60', BAD), ('rt.a60', RT), ('n.a60', NEED), ('g.x1', compiled(GOOD.replace('ok', 'x1'))),
            ('bad.x1', 'hello\n'), ('foo.txt', GOOD), ('noext', GOOD), ('lib.lib', sumlib())]


NAMES = ('g.a60', 'bad.a60', 'rt.a60', 'n.a60', 'g.x1', 'bad.x1', 'foo.txt', 'noext', 'lib.lib', 'none.a60', 'none.x1', 'none.lib')


def model(args, default='good'):
    """-> (status, stdout or None when not told, runs)"""
    ops = []
    trace = False
    k = 0
    SHORT = 'hVTd'
    LONG = {'help': 'h', 'version': 'V', 'trace': 'T', 'debug': 'd'}
    todo = list(args)
    while todo:
        a = todo.pop(0)
        if a == '--':
            ops += todo
            break
        opts = []
        if a.startswith('--'):
            n, eq, v = a[2:].partition('=')
            m = [x for x in LONG if x.startswith(n)]
            if len(m) != 1:
                return 1, None
            o = LONG[m[0]]
            if o == 'T':
                if not eq:
                    if not todo:
                        return 1, None
                    v = todo.pop(0)
                opts.append((o, v))
            elif eq:
                return 1, None
            else:
                opts.append((o, None))
        elif a.startswith('-') and len(a) > 1:
            i = 1
            while i < len(a):
                c = a[i]
                i += 1
                if c not in SHORT:
                    opts.append(('?', None))
                    break
                if c == 'T':
                    v = a[i:]
                    if not v:
                        if not todo:
                            opts.append(('?', None))
                            break
                        v = todo.pop(0)
                    opts.append((c, v))
                    break
                opts.append((c, None))
        else:
            ops.append(a)
        for o, v in opts:
            if o == '?':
                return 1, None
            if o in 'hV':
                return 0, 'info'
            if o == 'T':
                if '/' in v:            # no such directory
                    return 'fail', None
                if v in NAMES:
                    return None         # the trace overwrites an input
                trace = 'file' if v else trace or 'out'
            if o == 'd':
                trace = trace or 'out'
    if not ops:
        return 1, None
    if any(o.startswith('-') and len(o) > 1 for o in ops[1:]):
        return None             # the compiler takes it for an option
    st, out = run(ops, default)
    return st, (None if trace == 'out' else out)


def run(ops, default):
    f = ops[0]
    ext = os.path.splitext(f)[1]
    if ext == '.x1':
        if len(ops) > 1 or f != 'g.x1':
            return 1, ''
        return 0, 'x1'
    if ext != '.a60' or f not in ('g.a60', 'bad.a60', 'rt.a60', 'n.a60'):
        return 1, ''
    if f == 'bad.a60':
        return 1, ''
    if f == 'rt.a60':
        return 1, 'a'
    if f == 'g.a60':
        return 0, 'ok'
    libs = ops[1:] or [default]
    if libs[0] in ('lib.lib', 'good'):
        return 0, '10'
    return 1, ''


def judge_model(st, out):
    def judge(obs):
        o = obs[0]
        exp = {'status': st, 'stdout': out, 'stderr': '' if st == 0 else 'a message'}
        if st == 0:
            if o.status != 0:
                return 'must succeed', exp
        elif o.status == 0 or (st == 1 and o.status != 1):
            return 'must fail', exp
        got = o.out.decode('utf-8', 'replace')
        if st and not (o.err.strip() or got.strip()):
            return 'fails without a message', exp
        if out == 'info':
            if not got.strip():
                return 'no text', exp
        elif out is not None and got != out and not (st == 1 and out == '' and got.startswith('Usage')):
            return 'output differs', exp
        return None
    return judge


ARGS = ['g.a60', 'bad.a60', 'rt.a60', 'n.a60', 'g.x1', 'bad.x1', 'none.a60', 'none.x1', 'foo.txt', 'noext', 'lib.lib', 'none.lib', '', '-', '--',
        '-h', '--help', '-V', '--version', '-d', '--debug', '--trace=t.out', '--trace', '-T', '-Tt.out', '-T=', '-x', '--bogus', '-dV', '--tr=t.out',
        '--debug=1', '--trace=nodir/t']
FEWARGS = ['g.a60', 'n.a60', 'g.x1', 'none.lib', 'lib.lib', 'rt.a60', '--', '-h', '-d', '--trace=t.out', '--trace', '-x', '-V', 'foo.txt']


class Args(H.Space):
    name = 'arguments'
    rule = 'all sequences of at most 2 arguments (thorough: 3) from 32 files and options, at most 3 (thorough: 4) from 14'

    def descs(self, tier):
        seen = set()
        n = 2 if tier == 'quick' else 3
        for k in range(n + 1):
            for c in product(range(len(ARGS)), repeat=k):
                d = tuple(ARGS[i] for i in c)
                seen.add(d)
                yield d
        for k in range(n + 1, n + 2):
            for c in product(FEWARGS, repeat=k):
                if c not in seen:
                    yield c

    def case(self, d):
        m = model(d)
        if m is None:
            return None
        st, out = m
        r = H.Req(['x1sim'] + list(d), files())
        return H.Case('arguments:' + ' '.join(d), [r], judge_model(st, out), ' '.join(d), len(d) + 1, len(d))


def script(t):
    """runs in the scratch directory; $B = the directory of the programs"""
    return ['sh', '-c', 'B=${PATH%%:*}\n' + t]


class Library(H.Space):
    name = 'library lookup'
    rule = 'all combinations of X1ALGOL_LIB {unset, good, missing, empty name, directory, not a tape}, HOME {unset, with, without library, library is a directory}, ../lib and ../../library beside the simulator, simulator named by absolute or relative path or found through PATH, x program that needs the library or not, .a60 or .x1'

    def descs(self, tier):
        for e in ('unset', 'good', 'missing', 'empty', 'dir', 'bad'):
            for h in ('unset', 'good', 'none', 'bad'):
                for l in (0, 1, 2, 3, 5):
                    for p in ('g.a60', 'n.a60', 'g.x1'):
                        for how in ('abs', 'rel', 'path'):
                            yield e, h, l, p, how

    def case(self, d):
        e, h, l, p, how = d
        t = 'mkdir -p r a/b/bin home other\nln -s $B/x1sim a/b/bin/x1sim\necho "1 2 3" > bad.lib\n'
        if l & 1:
            t += 'mkdir a/b/lib; cp lib.lib a/b/lib/x1algol.lib\n'
        if l & 2:
            t += 'mkdir a/library; cp lib.lib a/library/x1algol.lib\n'
        if l & 4:
            t = t.replace('cp lib.lib a/b/lib/x1algol.lib', 'cp lib.lib a/b/lib/x1algol.lib')
            t += 'cp bad.lib a/b/lib/x1algol.lib\n'
        t += {'unset': 'unset X1ALGOL_LIB', 'good': 'export X1ALGOL_LIB=lib.lib', 'missing': 'export X1ALGOL_LIB=nothing.lib', 'empty': 'export X1ALGOL_LIB=',
              'dir': 'export X1ALGOL_LIB=home', 'bad': 'export X1ALGOL_LIB=bad.lib'}[e] + '\n'
        t += {'unset': 'unset HOME', 'good': 'cp lib.lib home/.x1algol.lib; export HOME=$PWD/home', 'none': 'export HOME=$PWD/other',
              'bad': 'cp bad.lib home/.x1algol.lib; export HOME=$PWD/home'}[h] + '\n'
        if how == 'path':
            # found through PATH, a library of the working directory is none of the default ones
            t += 'mkdir -p w/lib w/library library lib; cp lib.lib w/lib/x1algol.lib; cp lib.lib w/library/x1algol.lib; cp lib.lib library/x1algol.lib; cp lib.lib lib/x1algol.lib; cp *.a60 *.x1 *.lib w\n'
            t += 'cp -r home w; export PATH=$PWD/a/b/bin:$PATH; cd w; exec x1sim %s\n' % p
        else:
            t += 'exec %sa/b/bin/x1sim %s\n' % ('$PWD/' if how == 'abs' else '', p)
        # the model
        lib = {'good': 'good', 'missing': 'bad', 'empty': 'bad', 'dir': 'bad', 'bad': 'bad'}.get(e)
        if lib is None:
            lib = {'good': 'good', 'bad': 'bad'}.get(h)
        if lib is None:
            lib = 'bad' if l & 4 else 'good' if l & 1 else 'good' if l & 2 else None
            if how == 'path':
                if os.path.exists('/usr/local/lib/x1algol.lib') or os.path.exists('/usr/local/../library/x1algol.lib'):
                    return None
                lib = None
                if p == 'n.a60':
                    lib = 'bad'
        if p == 'g.x1' or p == 'g.a60':
            exp = (0, 'x1') if p == 'g.x1' else (0, 'ok')
            if lib is None:     # it may insist on a library, but then it says so
                exp = None
        else:
            exp = (0, '10') if lib == 'good' else (1, '')
        if exp is None:
            def judge(obs):
                o = obs[0]
                if o.status == 0 and o.out in (b'ok', b'x1') or o.status == 1 and o.err.strip() and not o.out:
                    return None
                return 'neither runs nor says why', {}
        else:
            judge = judge_model(*exp)
        return H.Case('library lookup:%r' % (d,), [H.Req(script(t), files())], judge, t, 4, 3)


STALE = 'mkdir bin; cp g.x1 p.x1; cp g.a60 p.a60\n'


class Faults(H.Space):
    name = 'compiler faults'
    rule = 'compilers that exit with every status 0-255 or die by every signal after writing {nothing, half, all, text} of an object program, missing or unusable compilers, sources and outputs, with an older object program in place; every limit on the size of the object program'

    def descs(self, tier):
        for w in ('nothing', 'half', 'all', 'text'):
            for s in range(0, 256) if tier != 'quick' else list(range(0, 12)) + [126, 127, 128, 129, 255]:
                yield 'exit', w, s
            for s in (1, 2, 3, 4, 6, 7, 8, 9, 11, 13, 14, 15, 24, 25):
                yield 'signal', w, s
        for k in ('no compiler', 'not executable', 'directory', 'bad format', 'source directory', 'source dangling', 'source missing', 'object directory', 'object dangling',
                  'object full', 'cwd read only'):
            yield k, '', 0
        for n in range(0, 40 if tier == 'quick' else 120):
            yield 'limit', '', n

    def case(self, d):
        kind, w, s = d
        fl = files() + [('half', compiled(GOOD)[:len(compiled(GOOD)) // 2]), ('all', compiled(GOOD)), ('text', 'Bad input: x\n')]
        t = STALE
        exp = (1, '')
        if kind in ('exit', 'signal'):
            c = '#!/bin/sh\n' + ('' if w == 'nothing' else 'cat %s\n' % w) + ('exit %d\n' % s if kind == 'exit' else 'kill -%d $$\n' % s)
            fl.append(('c', c))
            t += 'cp c bin/x1algc; chmod +x bin/x1algc; PATH=$PWD/bin:$PATH exec $B/x1sim p.a60\n'
            if kind == 'exit' and s == 0 and w == 'all':
                exp = (0, 'ok')
            elif kind == 'exit' and s == 0 and w == 'half':
                return None     # a compiler that claims success
        elif kind == 'limit':
            # the compiler's output is cut by a limit; the signal is ignored
            t += 'cat x >>p.a60; trap "" XFSZ; ulimit -f %d 2>/dev/null; exec $B/x1sim q.a60\n' % s
            src = "_b_e_g_i_n " + "PRINTTEXT(`ok');\n" * 100 + " _e_n_d\n"
            fl.append(('q.a60', src))
            fl.append(('x', ''))

            def judge(obs):
                o = obs[0]
                if o.status == 0 and o.out == b'ok' * 100:
                    return None
                if o.status != 0 and not o.out and (o.err.strip() or s == 0):
                    return None
                return 'a cut object program was run', {'status': 1, 'stdout': ''}
            return H.Case('faults:limit %d' % s, [H.Req(script(t), fl)], judge, t, 3, 2)
        else:
            p = 'p.a60'
            if kind == 'no compiler':
                t += 'PATH=$PWD/bin '
            elif kind == 'not executable':
                t += 'echo >bin/x1algc; PATH=$PWD/bin '
            elif kind == 'directory':
                t += 'mkdir bin/x1algc; PATH=$PWD/bin '
            elif kind == 'bad format':
                t += 'printf "\\1\\2\\3" >bin/x1algc; chmod +x bin/x1algc; PATH=$PWD/bin '
            elif kind == 'source directory':
                t += 'rm p.a60; mkdir p.a60; '
            elif kind == 'source dangling':
                t += 'rm p.a60; ln -s nothing p.a60; '
            elif kind == 'source missing':
                t += 'rm p.a60; '
            elif kind == 'object directory':
                t += 'rm p.x1; mkdir p.x1; '
            elif kind == 'object dangling':
                t += 'rm p.x1; ln -s no/p p.x1; '
            elif kind == 'object full':
                t += 'rm p.x1; ln -s /dev/full p.x1; ulimit -v 500000; '
            elif kind == 'cwd read only':
                t += 'rm p.x1; mkdir w; cd w; ln -s ../no/x p.x1; cp ../p.a60 .; '
            t += '$B/x1sim %s\n' % p
        return H.Case('faults:%s %s %d' % d, [H.Req(script(t), fl)], judge_model(*exp), t, 3, 2)


SIMPLE = "_b_e_g_i_n _i_n_t_e_g_e_r i; i := 3; print(i) _e_n_d\n"
LINE = [r'\s*\S{1,9}\s+(\d+)\s+(\d+)\s+(\d+)\s*', r'\s*(\d+)\s+(\d+)\s+(\d+)\s*', r'\s*(\d+)\s+(\d+)\s*']


def wellformed(line):
    if line == '':
        return True
    if '\0' in line:
        return None
    m = re.fullmatch(LINE[0], line, re.A)
    if m:
        return all(int(x) < 1 << 27 for x in m.groups()) or None
    m = re.fullmatch(LINE[1], line, re.A)
    if m:
        return all(int(x) < 1 << 15 for x in m.groups()) or None
    m = re.fullmatch(LINE[2], line, re.A)
    if m:
        return int(m.group(1)) < 1 << 15 and int(m.group(2)) < 1 << 27
    if re.search(r'[+-]\d', line):
        return None
    return False


class Objects(H.Space):
    name = 'malformed objects'
    rule = 'an object program with every character deleted, replaced or followed by each of 14 characters where the line is no longer well-formed; every line doubled in length; files without program'

    def descs(self, tier):
        lines = compiled(SIMPLE).split('\n')
        for n, l in enumerate(lines):
            for i in range(len(l) + 1):
                for c in ('a', '*', '.', '-', 'x', '#', 'é', ';', '\x01', '"', '\\', ',', 'e', '_'):
                    yield 'ins', n, i, c
                    if i < len(l):
                        yield 'rep', n, i, c
                if i < len(l):
                    yield 'del', n, i, ''
        for k, t in enumerate(['', '\n', '\n\n\n', ' ', 'A 0 0 1\n', '100 5\n', '10048 8\n10049 9\n', '*** stop 3-3 *** ()\n', 'Bad input: x\n', '\0', 'x', '1', '1 ', '9 28', '99999 1\n', '1 134217728\n',
                               ' 9 28  0\n40000 5\n', ' 9 28  0\n10048 1 2 3 4\n', ' 9 28  0\n5 5 5 5 5 5\n', 'é\n', '4294967296 1\n']):
            yield 'file', k, 0, t

    def case(self, d):
        kind, n, i, c = d
        if kind == 'file':
            t = c
            if t == ' 9 28  0\n10048 1 2 3 4\n' and False:
                return None
        else:
            lines = compiled(SIMPLE).split('\n')
            l = lines[n]
            l = l[:i] + c + l[i + (kind != 'ins'):]
            if wellformed(l) is not False:
                return None
            lines[n] = l
            t = '\n'.join(lines)
        return H.Case('objects:%r' % (d,), [H.Req(['x1sim', 'p.x1'], [('p.x1', t)])], judge_model(1, ''), t, 2, 1)


ERR = {
    'division': 'i := 1 ÷ z', 'real division': 'x := 1 / z', 'overflow': 'i := m × 2 + m', 'real overflow': 'x := 1⏨600; x := x × x × x', 'array low': 'a[0] := 1', 'array high': 'a[4] := 1',
    'sqrt': 'x := ln(z)', 'ln': 'x := ln(-1)', 'exp': 'x := exp(5000)', 'entier': 'i := entier(1⏨300)', 'power': 'x := z ↑ (-1)', 'zero power': 'x := z ↑ z', 'real power': 'x := (-2) ↑ 0.5',
    'recursion': 'f', 'bounds': '_b_e_g_i_n _i_n_t_e_g_e_r _a_r_r_a_y b[1:z]; b[1] := 1 _e_n_d', 'big array': '_b_e_g_i_n _r_e_a_l _a_r_r_a_y b[1:m]; b[1] := 1 _e_n_d', 'end of input': 'x := read',
    'conversion': 'i := 1⏨20', 'indices': 'g(a)', 'integer power': 'i := m ↑ 2',
}
CTX = ['%s', '_f_o_r k := 1, 2 _d_o _b_e_g_i_n %s _e_n_d', '_i_f z = 0 _t_h_e_n _b_e_g_i_n %s _e_n_d', '_b_e_g_i_n _i_n_t_e_g_e_r q; %s _e_n_d', 'p']


class Runtime(H.Space):
    name = 'run-time errors'
    rule = 'every kind of run-time error x place (statement, loop, conditional, block, procedure) x from source or object file: message, status 1, output up to the error'

    def descs(self, tier):
        for e in ERR:
            for c in range(len(CTX)):
                for m in range(2):
                    yield e, c, m

    def case(self, d):
        e, c, m = d
        st = ERR[e]
        body = CTX[c] % st if '%' in CTX[c] else CTX[c]
        src = "_b_e_g_i_n _i_n_t_e_g_e_r i, k, z, m; _r_e_a_l x; _i_n_t_e_g_e_r _a_r_r_a_y a[1:3]; _p_r_o_c_e_d_u_r_e f; f; " \
            "_p_r_o_c_e_d_u_r_e g(b); _i_n_t_e_g_e_r _a_r_r_a_y b; b[1, 1] := 1; _p_r_o_c_e_d_u_r_e p; _b_e_g_i_n %s _e_n_d;\n" \
            "z := 0; m := 67108863; PRINTTEXT(`before'); %s; PRINTTEXT(`after') _e_n_d\n" % (st, body)
        if m == 0:
            r = H.prog_req(src)
        else:
            o = compiled(src)
            r = H.Req(['x1sim', 'q.x1'], [('q.x1', o)])
        return H.Case('run-time errors:%s %d %d' % d, [r], judge_model(1, 'before'), src, 2, 1)


WRONG = ['', ' ', '\n', 'x', '_b_e_g_i_n', '_b_e_g_i_n x := 1 _e_n_d', '_b_e_g_i_n _i_n_t_e_g_e_r i; i := _e_n_d', '_e_n_d', '_b_e_g_i_n _i_n_t_e_g_e_r i, i; i := 1', '_b_e_g_i_n PRINTTEXT(`a _e_n_d',
         '_b_e_g_i_n _g_o_t_o l _e_n_d', '_b_e_g_i_n _i_f 1 = 1 _e_n_d', '_b_e_g_i_n ( _e_n_d', '_b_e_g_i_n _b_o_g_u_s _e_n_d', '_b_e_g_i_n é _e_n_d', '_b_e_g_i_n _i_n_t_e_g_e_r i; i := 99999999999999999999999 ⏨ 999 _e_n_d']


class Compile(H.Space):
    name = 'compile errors'
    rule = 'rejected sources, from a fresh directory or with an older object program of the same name, once or twice in a row'

    def descs(self, tier):
        for k in range(len(WRONG)):
            for s in range(3):
                yield k, s

    def case(self, d):
        k, s = d
        fl = [('p.a60', WRONG[k])]
        if s:
            fl.append(('p.x1', compiled(GOOD)))
        r = H.Req(['x1sim', 'p.a60'], fl) if s < 2 else H.Req(script('x1sim p.a60 2>/dev/null && exit 0; exec x1sim p.x1\n'), fl)
        return H.Case('compile errors:%d %d' % d, [r], judge_model(1, ''), WRONG[k], 2, 1)


def main(tier):
    return H.check('P17', [Args(), Library(), Faults(), Objects(), Runtime(), Compile()], tier, assumptions=[
        'an object program cut at a line boundary is well-formed: the format has no end mark'])
