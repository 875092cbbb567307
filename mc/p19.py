"""P19: large programs work or are rejected, never miscompiled."""
from . import harness as H, num

B, E = '_b_e_g_i_n ', ' _e_n_d'
INT, REAL, PROC, ARR = '_i_n_t_e_g_e_r ', '_r_e_a_l ', '_p_r_o_c_e_d_u_r_e ', '_a_r_r_a_y '
IF, THEN, ELSE, FOR, DO, STEP, UNTIL, VALUE = '_i_f ', ' _t_h_e_n ', ' _e_l_s_e ', '_f_o_r ', ' _d_o ', ' _s_t_e_p ', ' _u_n_t_i_l ', '_v_a_l_u_e '


def wrap(decl, body):
    return B + decl + ';\n' + ';\n'.join(body) + '\n' + E + '\n'


def ident(k):
    """short distinct identifiers v0, v1 ... in base 20"""
    s = ''
    while True:
        s = 'bcdfghjklmnpqrstvwxz'[k % 20] + s
        k //= 20
        if k == 0:
            return 'v' + s


def group(L, n=8):
    return [', '.join(L[i:i + n]) for i in range(0, len(L), n)]


def chunks(terms, op=' + ', n=6):
    return [op.join(terms[i:i + n]) for i in range(0, len(terms), n)]


# family: n -> (source, output)
def f_ints(n):
    v = [ident(k) for k in range(n)]
    body = ['%s := %d' % (x, k % 7 + 1) for k, x in enumerate(v)] + ['s := 0'] + ['s := s + %d × %s' % (k % 5 + 1, x) for k, x in enumerate(v)] + ['print(s)']
    return wrap('; '.join(INT + g for g in group(v + ['s'])), body), str(sum((k % 7 + 1) * (k % 5 + 1) for k in range(n)))


def f_reals(n):
    v = [ident(k) for k in range(n)]
    body = ['%s := %d.5' % (x, k % 7 + 1) for k, x in enumerate(v)] + ['s := 0'] + ['s := s + %d × %s' % (2 * (k % 5 + 1), x) for k, x in enumerate(v)] + ['print(s)']
    return wrap('; '.join(REAL + g for g in group(v + ['s'])), body), str(sum((2 * (k % 7) + 3) * (k % 5 + 1) for k in range(n)))


def f_local(n):
    """variables on the stack"""
    v = [ident(k) for k in range(n)]
    body = ['%s := %d' % (x, k % 7 + 1) for k, x in enumerate(v)] + ['s := 0'] + ['s := s + %s' % x for x in v] + ['print(s)']
    return B + INT + 's; ' + PROC + 'p; ' + B + '; '.join(INT + g for g in group(v)) + ';\n' + ';\n'.join(body) + E + ';\np; p' + E + '\n', \
        2 * str(sum(k % 7 + 1 for k in range(n)))


def f_localr(n):
    src, out = f_local(n)
    return src.replace(INT, REAL), out


def f_localarr(n):
    """arrays of a procedure with 3 indices"""
    v = [ident(k) for k in range(n)]
    return B + INT + 's; ' + PROC + 'p; ' + B + ';\n'.join(INT + ARR + g + '[0:1, 0:s, 1:2]' for g in group(v)) + ';\n' + ';\n'.join('%s[1, s, 2] := s' % x for x in v) \
        + ';\n' + 's := ' + v[0] + '[1, s, 2] + ' + v[-1] + '[1, s, 2]' + E + ';\ns := 2; p; print(s)' + E + '\n', '4'


def f_valarr(n):
    v = [ident(k) for k in range(n)]
    return B + INT + 's; ' + INT + ARR + 'a[1:2]; ' + PROC + 'p(' + ', '.join(v) + '); ' + VALUE + ', '.join(v) + '; ' + INT + ARR + ', '.join(v) + ';\n' + B + ';\n'.join('%s[1] := s' % x for x in v) \
        + ';\n' + 's := ' + v[0] + '[1] + ' + v[-1] + '[2]' + E + ';\ns := 2; a[1] := 5; a[2] := 6; p(' + ', '.join(['a'] * n) + '); print(s + a[1])' + E + '\n', '13'


def f_labels(n):
    body = ['i := 0', '_g_o_t_o ' + ident(n - 1)]
    for k in range(n):
        body.append('%s: i := i + 1; %s' % (ident(k), '_g_o_t_o ' + ident(k - 1) if k else '_g_o_t_o done'))
    body.append('done: print(i)')
    return wrap(INT + 'i', body), str(n)


def f_back(n):
    """labels reached by jumps back"""
    body = ['i := 0', 't := 0', '_g_o_t_o done']
    for k in range(n):
        body.append('%s: i := i + %d; _g_o_t_o done' % (ident(k), k % 9))
    body.append('done: t := t + 1')
    body += [IF + 't = %d' % (k + 1) + THEN + '_g_o_t_o ' + ident(k) for k in range(n)]
    body.append('print(i)')
    return wrap(INT + 'i, t', body), str(sum(k % 9 for k in range(n)))


def f_procs(n):
    d = INT + 'i'
    for k in range(n):
        d += ';\n' + PROC + ident(k) + '; i := i + %d' % (k % 5)
    return wrap(d, ['i := 0'] + [ident(k) for k in range(n)] + ['print(i)']), str(sum(k % 5 for k in range(n)))


def f_functions(n):
    d = INT + 'i'
    for k in range(n):
        d += ';\n' + INT + PROC + ident(k) + '(x); ' + VALUE + 'x; ' + INT + 'x; %s := x + %d' % (ident(k), k % 5)
    return wrap(d, ['i := 0'] + ['i := %s(i)' % ident(k) for k in range(n)] + ['print(i)']), str(sum(k % 5 for k in range(n)))


def f_values(n):
    v = [ident(k) for k in range(n)]
    d = INT + 's;\n' + PROC + 'p(' + ', '.join(v) + '); ' + ' '.join(VALUE + ', '.join(v) + ';' for _ in [0]) + ' ' + INT + ', '.join(v) + ';\n' + B \
        + ';\n'.join('s := s + %d × %s' % (k % 3 + 1, x) for k, x in enumerate(v)) + E
    return wrap(d, ['s := 0', 'p(' + ', '.join(str(k % 8) for k in range(n)) + ')', 'print(s)']), str(sum((k % 3 + 1) * (k % 8) for k in range(n)))


def f_names(n):
    v = [ident(k) for k in range(n)]
    d = INT + 's;\n' + PROC + 'p(' + ', '.join(v) + '); ' + INT + ', '.join(v) + ';\n' + B + ';\n'.join('s := s + %d × %s' % (k % 3 + 1, x) for k, x in enumerate(v)) + E
    return wrap(d, ['s := 0', 'p(' + ', '.join('s - s + %d' % (k % 8) for k in range(n)) + ')', 'print(s)']), str(sum((k % 3 + 1) * (k % 8) for k in range(n)))


def f_dims(n):
    return wrap(INT + ARR + 'a[' + ', '.join(['0:1'] * n) + ']; ' + INT + 'i', [
        'a[' + ', '.join(['0'] * n) + '] := 7', 'a[' + ', '.join(['1'] * n) + '] := 5', 'i := a[' + ', '.join(['0'] * n) + '] × 10 + a[' + ', '.join(['1'] * n) + ']', 'print(i)']), '75'


def f_dyndims(n):
    return B + INT + 'k; k := 1;\n' + B + INT + ARR + 'a[' + ', '.join(['0:k'] * n) + '];\n' + ';\n'.join([
        'a[' + ', '.join(['0'] * n) + '] := 7', 'a[' + ', '.join(['k'] * n) + '] := 5', 'k := a[' + ', '.join(['0'] * n) + '] × 10 + a[' + ', '.join(['1'] * n) + ']', 'print(k)']) + E + E + '\n', '75'


def f_parens(n):
    return wrap(INT + 'i', ['i := 1', 'i := ' + '(' * n + 'i' + ' + 1)' * n, 'print(i)']), str(n + 1)


def f_right(n):
    v = 1
    for _ in range(n):
        v = 3 - v
    return wrap(INT + 'i', ['i := 1', 'i := ' + '(3 - ' * n + 'i' + ')' * n, 'print(i)']), str(v)


def f_minus(n):
    return wrap(INT + 'i', ['i := 1', 'i := ' + '(-' * n + 'i' + ')' * n, 'print(i)']), str((-1) ** n)


def f_not(n):
    return wrap('_b_o_o_l_e_a_n q; ' + INT + 'i', ['q := 1 = 1', 'i := ' + IF + '¬(' * n + 'q' + ')' * n + THEN + '1' + ELSE + '2', 'print(i)']), str(1 + n % 2)


def f_ifexpr(n):
    return wrap(INT + 'i', ['i := %d' % (n // 2), 'i := ' + ''.join(IF + 'i = %d' % k + THEN + '%d' % (k * 2) + ELSE for k in range(n)) + '-1', 'print(i)']), str(n // 2 * 2 if n else -1)


def f_ifexpr2(n):
    """nested in the condition"""
    return wrap('_b_o_o_l_e_a_n q; ' + INT + 'i', ['q := 1 = 1', 'i := ' + IF + '(' + (IF + '(') * n + 'q' + (')' + THEN + 'q' + ELSE + '¬q') * n + ')' + THEN + '1' + ELSE + '2', 'print(i)']), '1'


def f_ifstat(n):
    return wrap(INT + 'i', ['i := 0', ''.join(IF + 'i = %d' % k + THEN + B + 'i := i + 1; ' for k in range(n)) + 'i := i + 100' + E * n, 'print(i)']), str(n + 100)


def f_elseif(n):
    return wrap(INT + 'i', ['i := %d' % (n // 2), ''.join(IF + 'i = %d' % (k + 1000) + THEN + 'i := %d' % k + ELSE for k in range(n)) + 'i := i + 100', 'print(i)']), str(n // 2 + 100)


def f_blocks(n):
    s = ''
    for k in range(n):
        s += B + INT + 'a%s; a%s := %d;\n' % (ident(k), ident(k), k + 1)
    s += 'print(' + ident(0).replace('v', 'av', 1) + ' + ' + 'a' + ident(n - 1) + ')' if n else 'print(0)'
    return B + s + E * n + E + '\n', str(1 + n) if n else '0'


def f_blocks_p(n):
    """nested blocks inside a procedure"""
    s = ''
    for k in range(n):
        s += B + INT + 'a%s; a%s := %d;\n' % (ident(k), ident(k), k + 1)
    s += 'print(' + ident(0).replace('v', 'av', 1) + ' + ' + 'a' + ident(n - 1) + ')' if n else 'print(0)'
    return B + PROC + 'p; ' + B + s + E * n + E + '; p' + E + '\n', str(1 + n) if n else '0'


def f_compounds(n):
    return wrap(INT + 'i', ['i := 0', (B + 'i := i + 1; ') * n + 'i := i + 100' + E * n, 'print(i)']), str(n + 100)


def f_fors(n):
    v = [ident(k) for k in range(n)]
    return wrap(INT + ', '.join(v + ['i']), ['i := 0', ''.join(FOR + '%s := 1' % x + (', 2' if k < 4 else '') + DO for k, x in enumerate(v)) + 'i := i + 1', 'print(i)']), str(2 ** min(n, 4))


def f_forsblock(n):
    v = [ident(k) for k in range(n)]
    return wrap(INT + ', '.join(v + ['i']), ['i := 0', ''.join(FOR + '%s := 1' % x + STEP + '1' + UNTIL + '1' + DO + B + 'i := i + 1; ' for k, x in enumerate(v)) + 'i := i + 1' + E * n, 'print(i)']), str(n + 1)


def f_nestprocs(n):
    s = ''
    for k in range(n):
        s += PROC + ident(k) + ';\n' + B + INT + 'w%s;\n' % ident(k)
    s2 = ''
    for k in range(n - 1, -1, -1):
        s2 += ';\n' if s2 else ''
        s2 += 'w%s := %d; ' % (ident(k), k) + ('i := i + w%s' % ident(0) if k == n - 1 else ident(k + 1) + '; i := i + 1') + E
    return B + INT + 'i; ' + s + s2 + ';\ni := 0; ' + ident(0) + '; print(i)' + E + '\n', str(n - 1)


def f_calls(n):
    return wrap(INT + 'i; ' + INT + PROC + 'f(x); ' + VALUE + 'x; ' + INT + 'x; f := x + 1', ['i := ' + 'f(' * n + '0' + ')' * n, 'print(i)']), str(n)


def f_namecalls(n):
    return wrap(INT + 'i; ' + INT + PROC + 'f(x); ' + INT + 'x; f := x + 1', ['i := ' + 'f(' * n + '0' + ')' * n, 'print(i)']), str(n)


def f_std(n):
    return wrap(INT + 'i', ['i := 5', 'i := ' + 'abs(' * n + 'i' + ')' * n, 'print(i)']), '5'


def f_subs(n):
    return wrap(INT + ARR + 'a[0:3]; ' + INT + 'i', ['a[0] := 1; a[1] := 2; a[2] := 0', 'i := ' + 'a[' * n + '0' + ']' * n, 'print(i)']), str([0, 1, 2][n % 3])


def f_stats(n):
    return wrap(INT + 'i', ['i := 0'] + ['i := i + 1'] * n + ['print(i)']), str(n)


def f_prints(n):
    return wrap(INT + 'i', ['i := 0'] + ['print(%d)' % (k % 10) for k in range(n)]), ''.join(str(k % 10) for k in range(n))


def f_consts(n):
    return wrap(INT + 'i', ['i := 0'] + ['i := i + %d' % (40000 + k) for k in range(n)] + ['print(i)']), str(sum(40000 + k for k in range(n)))


def f_reconsts(n):
    return wrap(REAL + 'x', ['x := 0'] + ['x := x + %d.5' % k for k in range(n)] + ['print(x × 2)']), str(sum(2 * k + 1 for k in range(n)))


def f_smallconsts(n):
    return wrap(INT + 'i', ['i := 0'] + ['i := i + %d' % k for k in range(n)] + ['print(i)']), str(sum(range(n)))


def f_names_long(n):
    a = 'a' * n
    return wrap(INT + a + ', b; ' + INT + 'c', [a + ' := 3', 'b := 4', 'print(' + a + ' + b)']), '7'


def f_string(n):
    t = ('abcdefghijklmnopqrstuvwxyz0123456789' * (n // 36 + 1))[:n]
    return wrap(INT + 'i', ["PRINTTEXT(`%s')" % t, 'i := 5', 'print(i)']), t + '5'


def f_strings(n):
    return wrap(INT + 'i', ["PRINTTEXT(`s%s')" % ident(k) for k in range(n)] + ['print(1)']), ''.join('s' + ident(k) for k in range(n)) + '1'


def f_switch(n):
    d = INT + 'i, t; _s_w_i_t_c_h s := ' + ', '.join(ident(k) for k in range(n))
    body = ['t := 0', 'i := 1', 'next: ' + IF + 'i > %d' % n + THEN + '_g_o_t_o done', '_g_o_t_o s[i]']
    for k in range(n):
        body.append('%s: t := t + %d; i := i + 1; _g_o_t_o next' % (ident(k), k % 7))
    return wrap(d, body + ['done: print(t)']), str(sum(k % 7 for k in range(n)))


def f_switches(n):
    d = INT + 'i, t; ' + ';\n'.join('_s_w_i_t_c_h s%s := %s, %s' % (ident(k), ident(k), ident(k)) for k in range(n))
    body = ['t := 0'] + ['_g_o_t_o s%s[%d]; %s: t := t + 1' % (ident(k), k % 2 + 1, ident(k)) for k in range(n)]
    return wrap(d, body + ['print(t)']), str(n)


def arr(static, real, two):
    def f(n):
        d = (REAL if real else INT) + ARR + 'a[1:%s]' % (n if static else 'n') + (', b[1:%s]' % (n if static else 'n') if two else '')
        body = ['a[1] := 3', 'a[%d] := 5' % n] + (['b[1] := 4', 'b[%d] := 6' % n] if two else []) + [FOR + 'i := 1' + STEP + str(max(1, n // 50)) + UNTIL + str(n) + DO + 'a[i] := a[i] + i']
        body += ['s := a[1] + a[%d]' % n + (' + b[1] + b[%d]' % n if two else ''), 'print(s)']
        a = {1: 3}
        a[n] = 5
        for i in range(1, n + 1, max(1, n // 50)):
            a[i] = a.get(i, 0) + i
        s = a[1] + a[n]
        if two:
            b = {1: 4}
            b[n] = 6
            s += b[1] + b[n]
        if static:
            return wrap(INT + 'i, s; ' + d, ['i := 0'] + body), str(s)
        return B + INT + 'i, s, n; n := %d;\n' % n + B + d + ';\n' + ';\n'.join(body) + E + E + '\n', str(s)
    f.slow = True
    return f


def f_array2(n):
    return wrap(INT + 'i, s; ' + INT + ARR + 'a[1:%d, -1:%d]' % (n, n), ['a[1, -1] := 3', 'a[%d, %d] := 5' % (n, n), 'a[1, %d] := 7' % n, 'print(a[1, -1] + 10 × a[%d, %d] + 100 × a[1, %d])' % (n, n, n)]), '753' if n > 1 else '773'


def f_forlist(n):
    return wrap(INT + 'i, s', ['s := 0', FOR + 'i := ' + ', '.join(str(k) for k in range(1, n + 1)) + DO + 's := s + i', 'print(s)']), str(n * (n + 1) // 2)


def f_forlist2(n):
    return wrap(INT + 'i, s', ['s := 0', FOR + 'i := ' + ', '.join('%d' % k + STEP + '1' + UNTIL + '%d' % (k + 1) for k in range(1, n + 1)) + DO + 's := s + i', 'print(s)']), str(sum(2 * k + 1 for k in range(1, n + 1)))


def f_arrays(n):
    v = [ident(k) for k in range(n)]
    return wrap('; '.join(INT + ARR + ', '.join(v[i:i + 6]) + '[0:2]' for i in range(0, n, 6)) + '; ' + INT + 's',
                ['%s[1] := %d' % (x, k % 9) for k, x in enumerate(v)] + ['s := 0'] + ['s := s + %s[1]' % x for x in v] + ['print(s)']) if n else wrap(INT + 's', ['s := 0', 'print(s)']), str(sum(k % 9 for k in range(n)))


def f_arrays_d(n):
    """dynamic arrays"""
    v = [ident(k) for k in range(n)]
    return B + INT + 's; s := 2;\n' + B + '; '.join(INT + ARR + x + '[0:s]' for x in v) + ';\n' \
        + ';\n'.join(['%s[1] := %d' % (x, k % 9) for k, x in enumerate(v)] + ['s := 0'] + ['s := s + %s[1]' % x for x in v] + ['print(s)']) + E + E + '\n', str(sum(k % 9 for k in range(n)))


def f_owns(n):
    v = [ident(k) for k in range(n)]
    return B + INT + 's; ' + PROC + 'p; ' + B + '; '.join('_o_w_n ' + INT + g for g in group(v)) + ';\n' + ';\n'.join('%s := %s + 1; s := s + %s' % (x, x, x) for x in v) + E + ';\ns := 0; p; p; print(s)' + E + '\n', str(3 * n)


def f_terms(n):
    return wrap(INT + 'i', ['i := 1', 'i := ' + ' + '.join(['i'] * n), 'print(i)']), str(n)


def f_booleans(n):
    return wrap(INT + 'i', ['i := 1', IF + ' ∧ '.join(['i = 1'] * n) + THEN + 'print(1)' + ELSE + 'print(2)']), '1'


def f_multi(n):
    v = [ident(k) for k in range(n)]
    return wrap('; '.join(INT + g for g in group(v)), [' := '.join(v) + ' := 6', 'print(' + v[0] + ' + ' + v[-1] + ')']), '12'


def f_line(n):
    return wrap(INT + 'i', ['i := 1;' + ' ' * n + 'i := i + 1', 'print(i)']), '2'


def f_comment(n):
    return wrap(INT + 'i', ['i := 1; _c_o_m_m_e_n_t ' + 'abcd efgh ' * n + '\n; i := i + 1', 'print(i)']), '2'


def f_seqblocks(n):
    return wrap(INT + 's', ['s := 0'] + [B + INT + 'a; ' + INT + ARR + 'b[1:3]; a := %d; b[2] := a; s := s + b[2]; l: ' % (k % 9) + E for k in range(n)] + ['print(s)']), str(sum(k % 9 for k in range(n)))


def f_actuals(n):
    """a procedure passed on through n procedures"""
    d = INT + 's;\n' + PROC + 'z; s := s + 1'
    for k in range(n):
        d += ';\n' + PROC + ident(k) + '(p); ' + PROC + 'p; ' + ('p' if k == 0 else ident(k - 1) + '(p)')
    return wrap(d, ['s := 0', ident(n - 1) + '(z)', 'print(s)']), '1'


def f_exprs(n):
    """thunks"""
    return wrap(INT + 's; ' + INT + PROC + 'f(x); ' + INT + 'x; f := x', ['s := 0'] + ['s := s + f(s - s + %d)' % (k % 5) for k in range(n)] + ['print(s)']), str(sum(k % 5 for k in range(n)))


STD = ['s := read', 'print(s)', 'TAB', 'NLCR', 's := XEEN(1)', 'SPACE(1)', 'stop', 's := abs(s)', 's := sign(s)', 's := sqrt(s)', 's := sin(s)', 's := cos(s)', 's := arctan(s)', 's := ln(s)', 's := exp(s)', 's := entier(s)',
       'FLOT(3, 3, s)', 'FIXT(3, 3, s)', 'ABSFIXT(3, 3, s)', 's := SUM(s, 1, 2, s)', "PRINTTEXT(`a')", 's := EVEN(s)', 's := RESYM', 'PRSYM(s)', 's := RANDOM(s)', 'SETRANDOM(s)', 's := TIMEOFDAY']


def pooled(odd, reals):
    """every predeclared name after n constants"""
    def f(n):
        c = ['s := s + %d' % (40000 + k) for k in range(n if not reals else odd)] + ['x := x + %d.5' % k for k in range(n if reals else odd)]
        st = [IF + 's < 0' + THEN + B + '; '.join(STD) + E]
        return wrap(INT + 's; ' + REAL + 'x', ['s := 0', 'x := 0'] + c + st + ['print(s); print(2 × x)']), \
            str(sum(40000 + k for k in range(odd if reals else n))) + str(sum(2 * k + 1 for k in range(n if reals else odd)))
    return f


def f_mixed(n):
    return wrap(INT + ', '.join([ident(k) for k in range(n)] + ['s']) + ';\n' + ';\n'.join(PROC + 'p%s; s := s + %s + %d' % (ident(k), ident(k), 50000 + k) for k in range(n)),
                ['s := 0'] + ['%s := %d' % (ident(k), k) for k in range(n)] + [IF + 's ≥ 0' + THEN + 'p' + ident(k) for k in range(n)] + ['print(s)']), str(sum(50000 + 2 * k for k in range(n)))


#         name: (function, first n, last n, must work up to)
FAM = {
    'integer variables': (f_ints, 1, 2500, 100), 'real variables': (f_reals, 1, 1500, 100), 'local variables': (f_local, 1, 1500, 100), 'labels': (f_labels, 1, 1500, 100), 'back labels': (f_back, 1, 1200, 80),
    'procedures': (f_procs, 1, 1500, 100), 'functions': (f_functions, 1, 1000, 50), 'value parameters': (f_values, 1, 300, 10), 'name parameters': (f_names, 1, 300, 10),
    'dimensions': (f_dims, 1, 16, 5), 'dynamic dimensions': (f_dyndims, 1, 14, 5), 'parentheses': (f_parens, 0, 1200, 20), 'right operands': (f_right, 0, 1200, 20), 'signs': (f_minus, 0, 1200, 20), 'negations': (f_not, 0, 1200, 20),
    'conditional expressions': (f_ifexpr, 1, 1200, 20), 'conditions': (f_ifexpr2, 0, 500, 5), 'conditional statements': (f_ifstat, 0, 1200, 20), 'else if': (f_elseif, 0, 1200, 20), 'blocks': (f_blocks, 1, 200, 20),
    'blocks in procedure': (f_blocks_p, 1, 200, 15), 'compounds': (f_compounds, 0, 1500, 20), 'loops': (f_fors, 1, 400, 10), 'loops with compounds': (f_forsblock, 1, 400, 10), 'nested procedures': (f_nestprocs, 2, 200, 15),
    'calls': (f_calls, 0, 800, 15), 'calls by name': (f_namecalls, 0, 800, 10), 'standard functions': (f_std, 0, 800, 20), 'subscripts': (f_subs, 0, 800, 20), 'statements': (f_stats, 0, 4000, 300), 'print statements': (f_prints, 0, 3500, 300),
    'large constants': (f_consts, 0, 1800, 100), 'real constants': (f_reconsts, 0, 1500, 100), 'standard names after integer constants': (pooled(0, False), 0, 1500, 100), 'standard names after real constants': (pooled(0, True), 0, 1200, 100), 'standard names after real constants and an integer': (pooled(1, True), 0, 1200, 100),
    'standard names after integer constants and a real': (pooled(1, False), 0, 1500, 100), 'small constants': (f_smallconsts, 0, 1800, 100), 'identifier length': (f_names_long, 1, 1100, 60), 'string length': (f_string, 0, 20000, 1000),
    'strings': (f_strings, 0, 1200, 50), 'switch elements': (f_switch, 1, 900, 50), 'switches': (f_switches, 1, 700, 30), 'static integer array': (arr(1, 0, 0), 1, 40000, 1000), 'static real array': (arr(1, 1, 0), 1, 30000, 1000),
    'static arrays': (arr(1, 0, 1), 1, 30000, 1000), 'dynamic integer array': (arr(0, 0, 0), 1, 40000, 1000), 'dynamic real array': (arr(0, 1, 0), 1, 40000, 1000), 'dynamic arrays': (arr(0, 1, 1), 1, 40000, 1000),
    'square array': (f_array2, 1, 300, 30), 'for list': (f_forlist, 1, 2000, 50), 'for list of progressions': (f_forlist2, 1, 1000, 50), 'arrays': (f_arrays, 1, 800, 30), 'arrays of a block': (f_arrays_d, 1, 500, 20),
    'local real variables': (f_localr, 1, 600, 50), 'arrays with 3 indices': (f_localarr, 1, 300, 10), 'value arrays': (f_valarr, 1, 200, 5),
    'own variables': (f_owns, 1, 800, 50), 'terms': (f_terms, 1, 3000, 100), 'boolean terms': (f_booleans, 1, 2000, 50), 'multiple assignment': (f_multi, 1, 800, 20), 'line length': (f_line, 0, 70000, 1000), 'comment length': (f_comment, 0, 7000, 100),
    'block sequence': (f_seqblocks, 0, 800, 50), 'passed procedures': (f_actuals, 1, 800, 20), 'thunks': (f_exprs, 0, 1200, 50), 'mixture': (f_mixed, 1, 800, 40),
}


def verdict(o, out):
    """'ok', 'rejected', or None"""
    if o.status == 0 and o.out.decode('utf-8', 'replace') == out:
        return 'ok'
    if o.status == 1 and o.err.strip():
        t = o.err.decode('utf-8', 'replace')
        if not o.out and 'compiler' in t and 'signal' not in t:
            if not (o.files.get('p.x1') or b'').strip():
                return None         # no diagnostic
            return 'rejected'
        if 'compiler' not in t and out.startswith(o.out.decode('utf-8', 'replace')) and any(w in t for w in ('overflow', 'Too ', 'block level', 'nesting')):
            return 'rejected'       # the store or the display is too small at run time
    return None


def make(name, n, key=None, src=None, out=None, must=False):
    if src is None:
        f = FAM[name][0]
        src, out = f(n)
        must = n <= FAM[name][3]
    r = H.prog_req(src, want=['p.x1'], cpu=10)

    def judge(obs):
        v = verdict(obs[0], out)
        if v is None:
            return 'neither correct nor rejected with a diagnostic', {'stdout': out, 'or': 'a diagnostic and status 1'}
        if v == 'rejected' and must:
            return 'rejected although small', {'status': 0, 'stdout': out}
        return None
    return H.Case(key or 'sizes:%s %d' % (name, n), [r], judge, src if len(src) < 20000 else src[:20000], 2, 1)


def boundaries(name, lo, hi, scratch):
    """the places where acceptance changes, by bisection between grid points"""
    def ok(n):
        src, out = FAM[name][0](n)
        return verdict(H.execute([H.prog_req(src, want=['p.x1'], cpu=10)], scratch)[0], out)
    grid = []
    n = lo
    while n < hi:
        grid.append(n)
        n = n + max(1, n // 3)
    grid.append(hi)
    r = []
    v = [ok(n) for n in grid]
    for a, b, x, y in zip(grid, grid[1:], v, v[1:]):
        if x != y:
            while b - a > 1:
                m = (a + b) // 2
                if ok(m) == x:
                    a = m
                else:
                    b = m
            r.append(a)
    return grid, r


class Sizes(H.Space):
    name = 'sizes'
    rule = '60 kinds of growth (names, constants, labels, parameters, dimensions, nestings, statements, data ...) at all sizes up to 40 (thorough: all up to 400, and every 7th), at sizes growing by a third up to beyond every limit, and at all sizes within 10 (thorough: 60) of the places where acceptance changes'

    def descs(self, tier):
        import tempfile, shutil
        d = tempfile.mkdtemp(prefix='x1mc.', dir='/dev/shm')
        for name in FAM:
            yield name, -1
        shutil.rmtree(d)

    def sizes(self, name, tier, scratch):
        f, lo, hi, must = FAM[name]
        grid, bs = boundaries(name, lo, hi, scratch)
        s = set(grid)
        s.update(range(lo, min(hi, 40 if tier == 'quick' else 400) + 1))
        if tier != 'quick':
            s.update(range(lo, hi, 7 if not getattr(f, 'slow', 0) and hi < 5000 else 97))
        w = 10 if tier == 'quick' else 60
        for b in bs:
            s.update(range(max(lo, b - w), min(hi, b + w) + 1))
        return sorted(s)


class Sweep(Sizes):
    """one family at a time; the sizes are found by a preliminary search in the real system"""
    PART = 8

    def descs(self, tier):
        for name in FAM:
            if ', then blocks' in name:
                continue
            for k in range(self.PART):
                yield name, k

    def case(self, d):
        import tempfile, shutil
        name, k = d
        scratch = tempfile.mkdtemp(prefix='x1mc.', dir='/dev/shm')
        try:
            key = (name, self.tier)
            cache = self.__dict__.setdefault('cache', {})
            if key not in cache:
                cache[key] = self.sizes(name, self.tier, scratch)
        finally:
            shutil.rmtree(scratch)
        ns = cache[key][k::self.PART]
        cs = [make(name, n) for n in ns]
        if not cs:
            return None

        def judge(obs):
            for c, o in zip(cs, obs):
                b = c.judge([o])
                if b:
                    return b[0] + ' (%s)' % c.key, b[1]
            return None
        # the replay shows the smallest failing one
        return Multi(cs)


TAIL = ("_b_e_g_i_n _i_n_t_e_g_e_r tqa; _i_n_t_e_g_e_r _a_r_r_a_y tqr[1:3]; _s_w_i_t_c_h tqs := tqm, tqn;\n"
        "_p_r_o_c_e_d_u_r_e tqp(tqx); _i_n_t_e_g_e_r tqx; _b_e_g_i_n tqx := tqx + 1; tqf _e_n_d;\n"
        "_p_r_o_c_e_d_u_r_e tqf; _i_f tqa < 7 _t_h_e_n tqp(tqa);\n"
        "tqa := 5; tqp(tqa); _g_o_t_o tqs[tqa - 6]; PRINTTEXT(|<?|>);\n"
        "tqn: PRINTTEXT(|<n|>); _g_o_t_o tqe;\n"
        "tqm: PRINTTEXT(|<m|>); tqr[2] := tqa; _b_e_g_i_n _p_r_o_c_e_d_u_r_e tqg; _b_e_g_i_n print(tqr[2]); _g_o_t_o tqh _e_n_d; tqg; tqh: _g_o_t_o tqs[2] _e_n_d;\n"
        "tqe: _b_e_g_i_n _i_n_t_e_g_e_r _p_r_o_c_e_d_u_r_e tqk; tqk := 8; print(tqk) _e_n_d _e_n_d")
TAILED = ['integer variables', 'real variables', 'labels', 'procedures', 'functions', 'statements', 'large constants', 'real constants', 'strings', 'string length', 'switch elements', 'switches', 'arrays', 'own variables',
          'terms', 'thunks', 'for list', 'block sequence', 'mixture', 'parentheses', 'passed procedures', 'calls by name', 'identifier length', 'conditional statements', 'compounds']


def tailed(f):
    def g(n):
        src, out = f(n)
        i = src.rindex('_e_n_d')
        return src[:i].rstrip() + ';\n' + TAIL + src[i - 1:], out + 'm7n8'
    return g


for _n in TAILED:
    FAM[_n + ', then blocks'] = (tailed(FAM[_n][0]), max(FAM[_n][1], 1), FAM[_n][2], FAM[_n][3])


TAIL2 = '_b_e_g_i_n _g_o_t_o tqm; PRINTTEXT(|<?|>); tqm: print(6) _e_n_d'
BEFORE = [('labels', 400), ('labels', 600), ('labels', 700), ('strings', 700), ('switches', 250), ('switches', 300), ('mixture', 200), ('procedures', 400)]
AFTER = ['large constants', 'integer variables', 'statements', 'labels', 'real constants', 'procedures']


def after(x, nx, y, tail, tout):
    sx, ox = FAM[x][0](nx)

    def g(n):
        sy, oy = FAM[y][0](n)
        return '_b_e_g_i_n _i_n_t_e_g_e_r zzz; zzz := 1;\n' + sx.rstrip() + ';\n' + sy.rstrip() + ';\n' + tail + '\n_e_n_d\n', ox + oy + tout
    return g


FILLED = []
for _x, _n in BEFORE:
    for _y in AFTER:
        for _t, _o in ((TAIL, 'm7n8'), (TAIL2, '6')):
            FILLED.append('%d %s and %s, then blocks' % (_n, _x, _y) + (' (few)' if _o == '6' else ''))
            FAM[FILLED[-1]] = (after(_x, _n, _y, _t, _o), 1, 1000, 0)


class Tail(Sweep):
    """growth followed by blocks whose declarations were collected by the prescan"""
    name = 'then blocks'
    rule = '25 kinds of growth, and 6 kinds after a store already filled in 8 ways, followed by blocks with arrays, switches, labels and mutually recursive procedures: sizes growing by a third up to beyond every limit, and all sizes within 40 (thorough: 120) of the places where acceptance changes'

    def descs(self, tier):
        for name in TAILED:
            for k in range(self.PART):
                yield name + ', then blocks', k
        for name in FILLED:
            for k in range(self.PART):
                yield name, k

    def sizes(self, name, tier, scratch):
        f, lo, hi, must = FAM[name]
        grid, bs = boundaries(name, lo, hi, scratch)
        s = set(grid)
        w = 40 if tier == 'quick' else 120
        if ' and ' in name and tier == 'quick':
            w = 20
        for b in bs:
            s.update(range(max(lo, b - w), min(hi, b + w) + 1))
        if tier != 'quick':
            s.update(range(lo, hi, 7 if hi < 5000 else 97))
        return sorted(s)


class Multi(H.Case):
    """several cases run together"""
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = cs
        H.Case.__init__(self, cs[0].key, [r for c in cs for r in c.reqs], self.first, cs[0].text, sum(c.states for c in cs), sum(c.trans for c in cs))

    def first(self, obs):
        for c, o in zip(self.cs, obs):
            b = c.judge([o])
            if b:
                self.key = c.key
                self.text = c.text
                return b
        return None


PAIRS = [('integer variables', 'large constants'), ('labels', 'statements'), ('procedures', 'parentheses'), ('statements', 'static integer array'), ('statements', 'dynamic real array'), ('large constants', 'static integer array'),
         ('integer variables', 'statements'), ('procedures', 'statements'), ('local variables', 'blocks'), ('strings', 'labels'), ('real constants', 'static real array'), ('switch elements', 'large constants'),
         ('value parameters', 'parentheses'), ('loops with compounds', 'integer variables'), ('thunks', 'static integer array'), ('mixture', 'string length'), ('functions', 'real constants'), ('block sequence', 'labels')]


class Two(H.Space):
    name = 'two dimensions'
    rule = '18 pairs of kinds of growth, one after the other in one program, on a grid of sizes (quick: 9 x 9; thorough: 30 x 30)'

    def descs(self, tier):
        n = 9 if tier == 'quick' else 30
        for p in range(len(PAIRS)):
            for a in range(n):
                for b in range(n):
                    yield p, a, b, n

    def case(self, d):
        p, a, b, n = d
        x, y = PAIRS[p]
        fx, lx, hx, _ = FAM[x]
        fy, ly, hy, _ = FAM[y]

        def size(lo, hi, i):
            lo = max(lo, 2)
            return int(lo * (hi / lo) ** (i / (n - 1)))
        nx, ny = size(lx, hx, a), size(ly, hy, b)
        sx, ox = fx(nx)
        sy, oy = fy(ny)
        src = B + sx.rstrip() + ';\n' + sy.rstrip() + E + '\n'
        return make(None, 0, 'two dimensions:%s %d, %s %d' % (x, nx, y, ny), src, ox + oy)


CALLS = 20  # calls make much object code from little text
ARRAYS = '''begin array a, b, c, d, e, f, g[1:2]; a[1] := b[2] := c[2] := d[1] := e[2] := g[1] := 3.5; f[2] := 4;
print(a[1], b[2], c[2], d[1], e[2], f[2], g[1]) end; begin integer array ra, rb, rc, rd, re, rf[1:2]; ra[1] := rb[2] := rc[2] := rd[1] := re[2] := 3; rf[2] := 4; %s; print(ra[1], rb[2], rc[2], rd[1], re[2], rf[2]) end'''


class Align(H.Space):
    name = 'growth of the object program'
    rule = 'programs with all kinds of declaration and 130 statements in groups of 20, in 4 (thorough: 24) contexts at 4 places, after 0 to 31 (thorough: 127) statements of padding, so that the lists of the compiler move at every place: same output whatever the padding'

    def descs(self, tier):
        from . import p22
        names = list(p22.STMTS)
        n = -(-len(names) // 20)
        for wr in ('plain', 'arrays', 'function', 'value array procedure') if tier == 'quick' else ['arrays'] + list(p22.WRAP):
            for pl in p22.places(''):
                for i in range(n):
                    yield wr, pl, tuple(names[i::n]), 32 if tier == 'quick' else 128

    def case(self, d):
        from . import p22
        wr, pl, g, pads = d
        t = ''.join('%szq := %d; %s; %s; zm%d: print(k, n, x);\n' % ('p; ' * CALLS, q + 1, p22.INIT, dict(p22.WRAP, arrays=ARRAYS)[wr].replace('%s', p22.STMTS[s] or 'k := k'), q + 1) for q, s in enumerate(g))
        src = p22.places(p22.BODY)[pl].replace('%(s)s', t).replace('%(t)s', ', '.join('zm%d' % (q + 1) for q in range(len(g))))
        srcs = [p22.plain(src.replace('zm := read;', 'zm := read; ' + 'p; ' * 200 + 'k := j; ' * k, 1)) + '\n' for k in range(pads)]
        reqs = [H.prog_req(x, b'10 1 ' + p22.DATA) for x in srcs]

        def judge(obs):
            a = obs[0]
            if a.status:
                return 'the program does not work', {'padding': 0}
            for k, o in enumerate(obs):
                if (o.status, o.out) != (a.status, a.out):
                    return 'the result depends on the place in the object program', {'padding': k, 'stdout': a.out.decode('utf-8', 'replace')[-200:]}
            return None
        return H.Case('growth %s %s %s' % (wr, pl, g[0]), reqs, judge, srcs[0], pads, pads)


# every use of a name, after n other declarations
HELP = '''procedure nm(v); integer v; v := v × 2 + 1; procedure rn(v); real v; v := v / 2 + 1; procedure bn(v); boolean v; v := ¬ v;
procedure relay(v); integer v; nm(v); procedure relay2(v, w); integer v, w; begin relay(v); relay(w); nm(v) end;
integer procedure vl(v); value v; integer v; vl := v + 1; real procedure rv(v); value v; real v; rv := v + 0.5; integer procedure bv(v); value v; boolean v; bv := if v then 1 else 2;
integer procedure an(a, v); integer array a; integer v; begin a[v] := a[v] + v; an := a[1] + 10 × a[2] end; integer procedure av(a); value a; integer array a; begin a[2] := a[2] + a[1]; av := a[2] end;
real procedure ran(a, v); real array a; integer v; begin a[v] := a[v] + 0.5; ran := a[1] + 10 × a[2] end; real procedure rav(a); value a; real array a; begin a[2] := a[2] + a[1]; rav := a[2] end;
procedure dop(f, v); procedure f; integer v; f(v); integer procedure dof(f); integer procedure f; dof := f(3) + f(4); procedure jump(w); label w; goto w; procedure sjump(w, k); switch w; integer k; goto w[k];
procedure exch(v, w); integer v, w; begin integer h; h := v; v := w; w := h end; integer procedure sum(v, l, u, t); value l, u; integer v, l, u, t; begin integer h; h := 0; for v := l step 1 until u do h := h + t; sum := h end;'''
DECL = 'integer i, j; real x, y; boolean b, c; integer array ia[1:3], ib[1:%(u)s, 0:%(v)s]; real array ra[1:3], rb[0:%(v)s]; switch sw := l1, l2, if b then l1 else l2;'
LOCALS = '''procedure lp(z); integer z; begin z := z + i; i := i + 1 end; integer procedure lf(z); value z; integer z; begin lf := z × i; j := j + 1 end; procedure lq; begin x := x + 1; b := ¬ b end'''
USES = [
    'i := 3; j := 4; x := 1.5; y := 2; b := true; c := false; print(i, j, x, y, b, c)', 'i := j := i + j; print(i, j)', 'x := i; y := x + j; i := x; print(i, x, y)', 'i := 5; j := 7; nm(i); relay(j); print(i, j)',
    'relay2(i, j); print(i, j)', 'exch(i, j); print(i, j)', 'x := 5; rn(x); y := 3; rn(y); print(x, y)', 'b := true; bn(b); c := b; bn(c); print(b, c)', 'i := 6; print(vl(i), vl(i + j), rv(x), rv(y), bv(b), bv(c))',
    'ia[1] := 4; ia[2] := 5; ia[3] := i; print(an(ia, 2), av(ia), ia[1], ia[2], ia[3]); i := 1; print(an(ia, i), av(ia))', 'ra[1] := 1.5; ra[2] := i; ra[3] := x; i := 2; print(ran(ra, 1), ran(ra, i), rav(ra), ra[1], ra[3])',
    'i := 1; ib[1, 0] := 7; ib[1, i] := 8; ib[i, 0] := ib[1, 0] + ib[i, i]; print(ib[1, 0], ib[1, 1]); rb[0] := 0.5; rb[i] := rb[0]; rb[0] := rb[0] + rb[1]; print(rb[0])', 'nm(ia[2]); relay(ia[i + 1]); exch(ia[1], ib[1, 1]); rn(ra[i]); print(ia[1], ia[2], ib[1, 1], ra[1])',
    'for i := 1 step 1 until 3 do j := j + i; print(i, j); for i := 4, j - 1 while i > 3 ∧ j > 20, 2 do j := j - 1; print(i, j); for x := 0.5 step 0.5 until 2 do y := y + x; print(x, y)', 'for ia[2] := 1, 2 do j := j + ia[2]; print(j, ia[2])',
    'i := 0; k := 0; m: k := k + 1; if k < 4 then goto sw[k]; goto ld; l1: i := i + 1; goto m; l2: i := i + 10; goto m; ld: print(i)', 'j := 0; jump(l4); j := 5; l4: print(j)', 'k := 0; n: k := k + 1; sjump(sw2, k); j := j + 100; l6: j := j + 1; if k < 2 then goto n; l7: print(j, k)',
    'i := 2; j := 3; lp(j); print(i, j); dop(lp, j); print(i, j); print(lf(2), dof(lf), i, j)', 'lq; print(x, b); dop2(lq); print(x, b)', 'print(sum(i, 1, 3, i × j), sum(j, 1, 2, ia[j]), i, j)', 'i := 7; i := -i; j := abs(i); x := sqrt(j + 2); y := sin(0 × x); print(i, j, x, y); print(entier(x + i), sign(i))',
    'i := if b then i else j; j := if i < j then i + 1 else if c then 3 else j ÷ 2; print(i, j); b := i < j ∨ c ≡ b; c := if b then c else ¬ c; print(b, c)', 'i := 3; j := i ↑ 2 - i × j; x := i / 4 + j; y := x × y ↑ 2; print(i, j, x, y)', 'if i = 3 then begin integer i, h; i := 5; h := j; print(i, h, x) end; print(i)',
]


def late_source(kind, n, names):
    v = ['q' + ident(k) for k in range(n)]
    u = '\n'.join('%s; NLCR;' % t for t in USES)
    u = 'sw2'.join(u.split('sw2'))
    use = lambda bounds: (DECL % bounds).replace('ra[1:3]', 'ra[1:3]').replace('else l2;', 'else l2, l2; switch sw2 := l6, l7;') + LOCALS
    D = {'u': 'g', 'v': 'g'}
    S = {'u': '1', 'v': '1'}
    head = HELP + ' procedure dop2(f); procedure f; f'
    g = lambda ty: ''.join(ty + ' ' + x + '; ' for x in group(v))
    if kind == 'integers':
        return 'begin integer g, k; %s; procedure p; begin %s%s; %s end; g := 1; p; NLCR; p end' % (head, g('integer'), use(D), u)
    if kind == 'reals':
        return 'begin integer g, k; %s; procedure p; begin %s%s; %s end; g := 1; p; NLCR; p end' % (head, g('real'), use(D), u)
    if kind == 'arrays':
        return 'begin integer g, k; %s; procedure p; begin %s; g := 1; p; NLCR; p end' % (head, use(D).replace('integer array', ''.join('integer array ' + x + '[0:g]; ' for x in v) + 'integer array', 1) + '; ' + u + ' end')
    if kind == 'statics':
        return 'begin integer g, k; %s%s; %s; g := 1; %s; NLCR; for i := 1 do; end' % (g('integer'), use(S).replace(LOCALS, ''), head + '; ' + LOCALS, u)
    if kind == 'static array':
        t = use(S).replace(LOCALS, '')
        t = t.replace('integer array', ('integer array fil[1:%d]; ' % n if n else '') + 'integer array', 1)
        return 'begin integer g, k; %s; %s; g := 1; %s; NLCR; for i := 1 do; end' % (t, head + '; ' + LOCALS, u)
    if kind == 'owns':
        return 'begin integer g, k; %s; procedure p; begin %s%s; %s end; g := 1; p; NLCR; p end' % (head, g('own integer'), use(D), u)
    if kind == 'outer block':
        t = use(D)
        a, b = t.index('switch'), t.index('procedure')
        return 'begin integer g, k; %s; procedure p; begin %s%s; procedure inner; begin %s %s end; inner; NLCR; inner end; g := 1; p end' % (head, g('integer'), t[:a] + t[b:], t[a:b].rstrip('; ') + ';', u)
    if kind == 'static names':
        return 'begin integer g, k; %s%s; procedure p; begin %s; %s end; g := 1; p; NLCR; p end' % (g('integer'), head, use(D), u)
    if kind == 'procedures':
        return 'begin integer g, k; %s; procedure p; begin %s; %s end; g := 1; p; NLCR; p end' % (head, use(D) + ''.join('; procedure %s; ' % x for x in v), u)
    if kind in ('values', 'parameters'):
        f = ', '.join(v + ['i', 'x', 'b', 'ia'])
        val = ', '.join((v if kind == 'values' else []) + ['x', 'b'])
        t = use(D).replace('integer i, j; real x, y; boolean b, c; integer array ia[1:3], ', 'integer j; real y; boolean c; integer array ')
        a = ', '.join([('7' if kind == 'values' else 'g') for _ in v] + ['k3', '0.5', 'g = 2', 'k4'])
        sp = ''.join('integer ' + x + '; ' for x in group(v))
        return 'begin integer g, k, k3; integer array k4[1:3]; %s; procedure p(%s); value %s; %s integer i; real x; boolean b; integer array ia; begin %s; %s end; g := 1; p(%s); NLCR; p(%s) end' % (head, f, val, sp, t, u, a, a)
    raise KeyError(kind)


class Late(H.Space):
    name = 'late declarations'
    rule = 'one program with 25 groups of uses of variables, arrays, switches, labels and procedures (plain, by name, relayed, by value, as actual of every kind, in loops, subscripts, expressions), all of them declared after n others of 11 kinds (locals, reals, local arrays, static variables and arrays, owns, in an outer block, procedures, parameters by value and by name): the output does not depend on n'
    KINDS = {'integers': (1050, 300), 'reals': (540, 150), 'arrays': (260, 40), 'statics': (1300, 300), 'static array': (20000, 3000), 'owns': (600, 150), 'outer block': (1050, 300), 'static names': (1300, 300), 'procedures': (600, 150), 'values': (300, 40), 'parameters': (300, 40)}

    def descs(self, tier):
        for kind, (hi, must) in self.KINDS.items():
            q = tier == 'quick'
            ns = set(range(0, hi if hi < 2000 else 600, 1 if not q else 4))
            if hi > 2000:
                ns |= set(range(0, hi, 23 if q else 7))
            for p in range(4, 16):
                for w in range(-40 if not q else -8, 5 if not q else 3):
                    # the block itself holds some 40 cells
                    for k in (0, -20, -40):
                        if 0 <= (1 << p) + w + k < hi:
                            ns.add((1 << p) + w + k)
            ns = sorted(ns)
            for k in range(0, len(ns), 8):
                yield kind, ns[k:k + 8], must

    def case(self, d):
        from . import p22
        kind, ns, must = d
        srcs = [p22.plain(late_source(kind, n, None)) + '\n' for n in [0] + list(ns)]
        reqs = [H.prog_req(x, want=['p.x1'], cpu=10) for x in srcs]

        def judge(obs):
            a = obs[0]
            if a.status:
                return 'the program without other declarations does not work', {'n': 0}
            for n, o in zip(ns, obs[1:]):
                v = verdict(o, a.out.decode('utf-8', 'replace'))
                if v is None:
                    return 'neither the same result nor rejected with a diagnostic', {'n': n, 'stdout': a.out.decode('utf-8', 'replace')}
                if v == 'rejected' and n <= must:
                    return 'rejected although small', {'n': n}
            return None
        return H.Case('late:%s %d' % (kind, ns[0]), reqs, judge, srcs[1][:20000], len(ns), len(ns) * len(USES))


class Pools(H.Space):
    name = 'constants and static arrays'
    rule = 'n integer or real constants (all n up to 36, thorough: 80) met before m (up to 3, thorough: 5) static arrays of 1 to 3 dimensions, own arrays in a procedure or arrays of the outermost block: the list of constants meets the list of names at every offset; afterwards every standard procedure is used, and all constants and arrays'

    def descs(self, tier):
        q = tier == 'quick'
        for n in range(37 if q else 81):
            for real in (0, 1):
                for m in range(1, 4 if q else 6):
                    for dim in (1, 2, 3):
                        for own in (0, 1):
                            yield n, real, m, dim, own

    def case(self, d):
        n, real, m, dim, own = d
        from .p24 import plain
        names = ['a%d' % k for k in range(m)]
        decl = '%sinteger array %s[%s]' % ('own ' if own else '', ', '.join(names), ', '.join(['-1:1', '2:3', '0:1'][:dim]))
        subs = [[str(k)] for k in (-1, 0, 1)]
        for k in range(1, dim):
            subs = [x + [y] for x in subs for y in (['2', '3'] if k == 1 else ['0', '1'])]
        cells = ['%s[%s]' % (a, ', '.join(x)) for a in names for x in subs]
        use = '; '.join('%s := g + %d' % (c, k) for k, c in enumerate(cells)) + '; s := 0; ' + '; '.join('s := 2 × s + %s' % c for c in cells[:12]) + '; print(s); NLCR; print(%s)' % ', '.join(cells[-3:])
        consts = ['%d%s' % (40001 + 7 * k, '.5' if real else '') for k in range(n)]
        std = 'NLCR; print(read + read, abs(-3), sign(-2), sqrt(4), sin(0), cos(0), arctan(0), ln(1), exp(0), entier(2.5), EVEN(4), SUM(g, 1, 4, g)); SPACE(3); PRINTTEXT(`x\'); NLCR; FIXT(2, 1, .5); FLOT(3, 1, .5); ABSFIXT(2, 0, 7)'
        src = 'begin integer g, s; real r; procedure c; begin r := 0; %s end; %s g := 5; c; print(r); NLCR; %s; %s end' % (
            '; '.join('r := r + ' + x for x in consts), ('procedure o; begin %s; %s end;' % (decl, use)) if own else decl + ';', 'o' if own else use, std)
        v = [5 + k for k in range(len(cells))]
        t = 0
        for x in v[:12]:
            t = 2 * t + x
        from fractions import Fraction as F
        out = num.fmt(sum((F(40001 + 7 * k) + (F(1, 2) if real else 0) for k in range(n)), F(0))) + '\n%d\n%s\n' % (t, ' '.join(map(str, v[-3:])))
        out += '7 3 -1 2 0 1 0 0 1 2 1 10   x\n+  .5 +.500\u23e8+0   7 '
        return H.Case('%s: %d %d %d %d %d' % (self.name, n, real, m, dim, own), [H.prog_req(plain(src), b'3 4 ')], H.expect_run('ok', out), src, 1, n + len(cells))


def main(tier):
    return H.check('P19', [Sweep(), Tail(), Two(), Align(), Late(), Pools()], tier, assumptions=['sizes of one kind, or two kinds, of growth at a time'])
