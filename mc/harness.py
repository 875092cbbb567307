"""Exhaustive exploration driver: enumerates the bounded space of a property,
runs every case on the real programs, compares with the model, and writes the
evidence file."""
import hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp
from . import build as B

VERIF = B.VERIF
SKIPPED = 0xfffffffe    # not executed: too many runaways in the same batch
NPROC = min(8, os.cpu_count() or 1)
BUILD = None


class Req:
    """One execution of a real program."""
    __slots__ = ('args', 'files', 'input', 'env', 'want', 'cpu', 'outmax')

    def __init__(self, args, files=(), input=b'', env=(), want=(), cpu=5, outmax=1 << 22):
        self.args = list(args)
        self.files = list(files)
        self.input = input
        self.env = list(env)
        self.want = list(want)
        self.cpu = cpu
        self.outmax = outmax

    def js(self):
        return {'args': self.args, 'env': [e for e in self.env], 'files': {n: _s(c) for n, c in self.files},
                'stdin': _s(self.input)}


def _b(x):
    return x.encode() if isinstance(x, str) else x


def _s(x):
    return x if isinstance(x, str) else x.decode('utf-8', 'replace')


class Obs:
    __slots__ = ('status', 'out', 'err', 'files')

    def js(self):
        return {'status': self.status, 'stdout': _s(self.out)[:4000], 'stderr': _s(self.err)[:2000],
                'files': {k: (None if v is None else _s(v)[:3000]) for k, v in self.files.items()}}


def base_env(d):
    return ['PATH=%s:/usr/bin:/bin' % d, 'X1ALGOL_LIB=%s/x1algol.lib' % d, 'HOME=/nonexistent',
            'ASAN_OPTIONS=detect_leaks=0:exitcode=99', 'TZ=UTC']


def execute(reqs, scratch):
    """Run the requests on the real programs."""
    d = BUILD
    p = [struct.pack('<I', len(reqs))]

    def ps(x):
        x = _b(x)
        p.append(struct.pack('<I', len(x)))
        p.append(x)
    for r in reqs:
        p.append(struct.pack('<II', r.cpu, r.outmax))
        p.append(struct.pack('<I', len(r.args)))
        for a in r.args:
            ps(a)
        env = base_env(d) + r.env
        p.append(struct.pack('<I', len(env)))
        for a in env:
            ps(a)
        p.append(struct.pack('<I', len(r.files)))
        for n, c in r.files:
            ps(n)
            ps(c)
        ps(r.input)
        p.append(struct.pack('<I', len(r.want)))
        for a in r.want:
            ps(a)
    bf = os.path.join(scratch, 'batch')
    of = os.path.join(scratch, 'result')
    sd = os.path.join(scratch, 'd')
    os.makedirs(sd, exist_ok=True)
    with open(bf, 'wb') as f:
        f.write(b''.join(p))
    q = subprocess.run([os.path.join(d, 'runner'), bf, of, sd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if q.returncode:
        raise RuntimeError('runner failed: %r' % q.stdout[-500:])
    with open(of, 'rb') as f:
        data = f.read()
    pos = 0
    res = []

    def g32():
        nonlocal pos
        v = struct.unpack_from('<I', data, pos)[0]
        pos += 4
        return v

    def gs():
        nonlocal pos
        n = g32()
        v = data[pos:pos + n]
        pos += n
        return v
    for r in reqs:
        o = Obs()
        o.status = g32()
        o.out = gs()
        o.err = gs()
        o.files = {}
        for w in r.want:
            e = g32()
            c = gs()
            o.files[w] = c if e else None
        res.append(o)
    return res


class Case:
    """A point of the explored space: requests plus a verdict on the observations."""
    __slots__ = ('key', 'reqs', 'judge', 'text', 'states', 'trans', 'info')

    def __init__(self, key, reqs, judge, text='', states=1, trans=1, info=None):
        self.key = key            # identifies the case (known findings are matched by it)
        self.reqs = reqs
        self.judge = judge        # judge(list of Obs) -> None or (description, expected)
        self.text = text          # readable form
        self.states = states
        self.trans = trans
        self.info = info


def prog_req(src, input=b'', files=(), extra=(), **kw):
    return Req(['x1sim', 'p.a60'] + list(extra), [('p.a60', src)] + list(files), input, **kw)


MZ = re.compile(r'(?<![\w.+-])-0(?![\w.])')


def expect_run(status, out, mz=True):
    """Judge for one program with a known outcome: 'ok' and exact output, or
    'error': non-zero exit, error message, output so far."""
    def judge(obs):
        o = obs[0]
        got = o.out.decode('utf-8', 'replace')
        if mz:
            got = MZ.sub('0', got)
        if status == 'ok':
            if o.status != 0 or got != out:
                return 'output/exit status differ from the model', {'status': 0, 'stdout': out}
        else:
            if o.status != 1 or b'Error:' not in o.err or got != out:
                return 'the model requires a run-time error', {'status': 1, 'stdout': out, 'stderr': 'Error: ...'}
        return None
    return judge


def expect_lines(space, items):
    """One line per item, compared by space.same(desc, expected, got)."""
    def judge(obs):
        o = obs[0]
        got = MZ.sub('0', o.out.decode('utf-8', 'replace'))
        exp = ''.join(e + '\n' for _, e in items)
        if o.status == 0 and got == exp:
            return None
        lines = got.split('\n')
        if o.status != 0 or len(lines) != len(items) + 1 or lines[-1] != '':
            return 'output/exit status differ from the model', {'status': 0, 'stdout': exp}
        for (d, e), g in zip(items, lines):
            if g != e and not space.same(d, e, g):
                return 'output differs from the model', {'status': 0, 'stdout': exp, 'line': [e, g]}
        return None
    return judge


class Space:
    """A finite space of cases.
    descs(): deterministic iterator of small descriptors;
    packs : if pack > 1, consecutive 'ok' descriptors are merged in one program."""
    name = 'space'
    pack = 1
    mz = True           # -0 in the output counts as 0
    same = None         # optional same(desc, expected line, got line): tolerant comparison

    def descs(self, tier):
        raise NotImplementedError

    # -- either build one case per descriptor ...
    def case(self, desc):
        raise NotImplementedError

    # -- ... or: model(desc) -> None (skip) | (status, line, states, transitions)
    #            program([desc]) -> source text printing one line per descriptor
    def model(self, desc):
        raise NotImplementedError

    def program(self, descs):
        raise NotImplementedError

    def describe(self, desc):
        return repr(desc)

    rule = ''


def pack_case(space, items):
    """items: [(desc, model result)]"""
    descs = [d for d, _ in items]
    src = space.program(descs)
    if len(items) == 1 and items[0][1][0] != 'ok':
        st, out = items[0][1][0], items[0][1][1]
    else:
        st, out = 'ok', ''.join(m[1] + '\n' for _, m in items)
    if space.same is not None and st == 'ok':
        judge = expect_lines(space, [(d, m[1]) for d, m in items])
    else:
        judge = expect_run(st, out, space.mz)
    return Case(space.name + ':' + '|'.join(space.describe(d) for d in descs), [prog_req(src)], judge,
                src, sum(m[2] for _, m in items), sum(m[3] for _, m in items))


# ------------------------------------------------------------------ workers
def _worker(spaces, tier, w, nw, q, deadline):
    scratch = tempfile.mkdtemp(prefix='x1mc.', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    try:
        for si, sp in enumerate(spaces):
            st = dict(space=si, descs=0, cases=0, skipped=0, states=0, trans=0, runs=0, outcomes=set(), samples=[],
                      viol=[], known=[], err=None, cases_descs=0, unrun=0)
            try:
                if STOP.value < MAXVIOL:
                    _explore(sp, tier, w, nw, scratch, st, deadline)
                if st['unrun'] and not st['viol']:
                    raise RuntimeError('%d cases were not run' % st['unrun'])
            except Exception:
                st['err'] = traceback.format_exc()
            st['outcomes'] = list(st['outcomes'])[:200000]
            q.put(st)
            if st['err']:
                return
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        q.put(None)


CHUNK = 48
MAXVIOL = 8


def _explore(sp, tier, w, nw, scratch, st, deadline):
    buf = []

    def flush(final=False):
        nonlocal buf
        if not buf or STOP.value >= MAXVIOL:
            return
        cases = buf
        buf = []
        reqs = []
        for c, _ in cases:
            reqs += c.reqs
        obs = execute(reqs, scratch)
        st['runs'] += len(reqs)
        k = 0
        for c, items in cases:
            o = obs[k:k + len(c.reqs)]
            k += len(c.reqs)
            if any(x.status == SKIPPED for x in o):
                st['unrun'] += 1
                continue
            st['cases'] += 1
            st['states'] += c.states
            st['trans'] += c.trans
            for x in o:
                st['outcomes'].add(hashlib.md5(bytes([x.status & 255]) + x.out + x.err).digest()[:8])
            if len(st['samples']) < 2 and c.text:
                st['samples'].append({'space': sp.name, 'case': c.text[:1500], 'observed': o[-1].out.decode('utf-8', 'replace')[:300]})
            if c.info is not None:
                try:
                    a, b = c.info(o)
                    st['states'] += a - c.states
                    st['trans'] += b - c.trans
                except Exception:
                    pass
            bad = c.judge(o)
            if bad and len(st['viol']) < MAXVIOL:
                _confirm(sp, c, items, scratch, st)
    group = []
    for i, desc in enumerate(sp.descs(tier)):
        if (i // (sp.pack * 4 if sp.pack > 1 else 8)) % nw != w:
            continue
        st['descs'] += 1
        if time.time() > deadline:
            raise RuntimeError('deadline exceeded in space %s' % sp.name)
        if sp.pack > 1:
            m = sp.model(desc)
            if m is None:
                st['skipped'] += 1
                continue
            st['cases_descs'] += 1
            if m[0] != 'ok':
                buf.append((pack_case(sp, [(desc, m)]), [(desc, m)]))
            else:
                group.append((desc, m))
                if len(group) >= sp.pack:
                    buf.append((pack_case(sp, group), group))
                    group = []
        else:
            c = sp.case(desc)
            if c is None:
                st['skipped'] += 1
                continue
            st['cases_descs'] += 1
            buf.append((c, None))
        if len(buf) >= CHUNK:
            flush()
        if len(st['viol']) >= MAXVIOL or STOP.value >= MAXVIOL:
            break
    if group:
        buf.append((pack_case(sp, group), group))
    flush()


def _confirm(sp, c, items, scratch, st):
    """Replay before reporting; a pack is reduced to its smallest failing part."""
    cands = []
    if items is not None and len(items) > 1:
        for it in items:
            cands.append(pack_case(sp, [it]))
    cands.append(c)
    for cc in cands:
        o1 = execute(cc.reqs, scratch)
        b1 = cc.judge(o1)
        if not b1:
            continue
        o2 = execute(cc.reqs, scratch)
        b2 = cc.judge(o2)
        if not b2:
            continue
        if not is_known(sp.prop, cc.key):
            with STOP.get_lock():
                STOP.value += 1
            dest = st['viol']
        else:
            dest = st['known']
        dest.append(dict(key=cc.key, space=sp.name, what=b1[0], expected=b1[1], text=cc.text,
                               reqs=[r.js() for r in cc.reqs], observed=[o.js() for o in o1]))
        if len(st['viol']) >= MAXVIOL:
            return
    if not st['viol'] and not st['known']:
        raise RuntimeError('mismatch that does not replay: %s' % c.key[:500])


# ------------------------------------------------------------------- driver
def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


STOP = mp.Value('i', 0)


def is_known(prop, key):
    return any(k.get('key') == key or (k.get('key_regex') and re.fullmatch(k['key_regex'], key, re.S))
               for k in known_findings(prop))


def check(prop, spaces, tier, level='model_checking', assumptions=(), pascal=False, asan=False, small=False, limit=840):
    global BUILD
    t0 = time.time()
    for f in os.listdir(os.path.join(VERIF, 'replays')) if os.path.isdir(os.path.join(VERIF, 'replays')) else []:
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(VERIF, 'replays', f))
    BUILD = B.build(pascal=pascal, asan=asan, small=small)
    for sp in spaces:
        sp.build = BUILD
        sp.tier = tier
        sp.prop = prop
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    deadline = t0 + (limit if tier == 'quick' else 24 * 3600)
    ps = [ctx.Process(target=_worker, args=(spaces, tier, w, NPROC, q, deadline)) for w in range(NPROC)]
    for p in ps:
        p.start()
    left = NPROC
    tot = [dict(descs=0, cases=0, skipped=0, states=0, trans=0, runs=0, outcomes=set(), samples=[], cases_descs=0) for _ in spaces]
    viol = []
    err = None
    while left:
        try:
            st = q.get(timeout=5)
        except Exception:
            if all(not p.is_alive() for p in ps) and q.empty():
                err = err or 'a worker died'
                break
            continue
        if st is None:
            left -= 1
            continue
        if st['err']:
            err = st['err']
            continue
        t = tot[st['space']]
        for k in ('descs', 'cases', 'skipped', 'states', 'trans', 'runs', 'cases_descs'):
            t[k] += st[k]
        t['outcomes'].update(st['outcomes'])
        t['samples'] += st['samples']
        viol += st['viol']
    for p in ps:
        p.join()
    new = viol
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    rc = 0
    if new:
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        new.sort(key=lambda v: (len(v['text']), v['key']))
        for i, v in enumerate(new[:5]):
            path = os.path.join(rd, '%s-%d.json' % (prop, i))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, ensure_ascii=False)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  space %s: %s' % (v['space'], v['what']))
            print('  case: %s' % v['key'][:400])
        rc = 1
    S = sum(t['states'] for t in tot)
    T = sum(t['trans'] for t in tot)
    samples = []
    for t in tot:
        samples += sorted(t['samples'], key=lambda s: s['case'])[:1]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level,
              coverage=dict(states=S, transitions=T,
                            traces_validated_against_impl=sum(t['cases_descs'] for t in tot),
                            executions=sum(t['runs'] for t in tot),
                            distinct_outcomes=sum(len(t['outcomes']) for t in tot),
                            exhaustive=(err is None and not new),
                            samples=samples,
                            spaces=[dict(name=sp.name, rule=sp.rule, enumerated=t['descs'], outside_model=t['skipped'],
                                         validated=t['cases_descs'], executions=t['runs'], states=t['states'],
                                         transitions=t['trans'], distinct_outcomes=len(t['outcomes']))
                                    for sp, t in zip(spaces, tot)]),
              assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for sp, t in zip(spaces, tot):
        print('%s %-28s enumerated=%d skipped=%d validated=%d runs=%d states=%d transitions=%d outcomes=%d' % (
            prop, sp.name, t['descs'], t['skipped'], t['cases_descs'], t['runs'], t['states'], t['trans'], len(t['outcomes'])))
    print('%s tier=%s states=%d transitions=%d wall=%.1fs' % (prop, tier, S, T, time.time() - t0))
    if err and not new:
        sys.stderr.write('CHECK ERROR: %s\n' % err)
        return 3
    return rc
