"""Build the programs under test from /repo's working tree into a cache
directory of /verif (keyed by the contents of the sources)."""
import hashlib, os, re, subprocess, sys, shutil, glob, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('X1_REPO', '/repo')
CACHE = os.path.join(VERIF, '_build')


def _sources():
    pats = ['simulator/*', 'compiler/*', 'library/*']
    fs = []
    for p in pats:
        fs += [f for f in glob.glob(os.path.join(REPO, p)) if os.path.isfile(f)]
    fs += glob.glob(os.path.join(VERIF, 'mc', '*.cpp')) + [os.path.abspath(__file__)]
    return sorted(fs)


def tree_hash():
    h = hashlib.sha256()
    for f in _sources():
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def _run(cmds):
    """Run commands in parallel; every failure is fatal."""
    procs = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in cmds]
    bad = None
    for c, p in procs:
        o = p.communicate()[0]
        if p.returncode and bad is None:
            bad = (c, o)
    if bad:
        sys.stderr.write('BUILD FAILED: %s\n%s\n' % (' '.join(bad[0]), bad[1].decode(errors='replace')))
        sys.exit(3)


def build(pascal=False, asan=False, small=False):
    """Returns the directory holding runner, x1algc, objfile and x1algol.lib."""
    d = os.path.join(CACHE, tree_hash())
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, 'ok')):
            # Drop old trees.
            for o in os.listdir(CACHE):
                p = os.path.join(CACHE, o)
                if p != d and os.path.isdir(p) and len(o) == 20:
                    shutil.rmtree(p, ignore_errors=True)
            inc = ['-I' + os.path.join(REPO, 'simulator')]
            cmds = []
            objs = []
            for f in sorted(glob.glob(os.path.join(REPO, 'simulator', '*.cpp'))):
                o = os.path.join(d, 'sim_' + os.path.basename(f) + '.o')
                c = ['g++', '-std=c++17', '-O2', '-DNDEBUG', '-w', '-c', f, '-o', o]
                if os.path.basename(f) == 'main.cpp':
                    c[1:1] = ['-Dmain=x1sim_main', '-DVERSION_STRING="verif"']
                cmds.append(c)
                objs.append(o)
            r = os.path.join(d, 'runner.o')
            cmds.append(['g++', '-std=c++17', '-O2', '-c', os.path.join(VERIF, 'mc', 'runner.cpp'), '-o', r])
            csrc = sorted(glob.glob(os.path.join(REPO, 'compiler', '*.c')))
            cmds.append(['gcc', '-std=gnu11', '-O2', '-DNDEBUG', '-w', '-static'] + csrc + ['-o', os.path.join(d, 'x1algc')])
            cmds.append(['g++', '-std=c++17', '-O2', '-w', os.path.join(REPO, 'library', 'objfile.cc'),
                         '-o', os.path.join(d, 'objfile')])
            cmds.append(['g++', '-std=c++17', '-O2', '-static', os.path.join(VERIF, 'mc', 'tty.cpp'), '-o', os.path.join(d, 'ttyrun')])
            _run(cmds)
            _run([['g++', '-static', r] + objs + ['-o', os.path.join(d, 'runner')]])
            if not os.path.islink(os.path.join(d, 'x1sim')):
                os.symlink('runner', os.path.join(d, 'x1sim'))
            nomain = [o for o in objs if not o.endswith('sim_main.cpp.o')]
            cmds = []
            for h in sorted(glob.glob(os.path.join(VERIF, 'mc', 'drv_*.cpp'))):
                name = os.path.basename(h)[4:-4]
                cmds.append(['g++', '-std=c++17', '-O2', '-w', '-static'] + inc + [h] + nomain + ['-o', os.path.join(d, name)])
            # The drivers use internal interfaces of the simulator; when those are
            # reorganized the check relies on its end-to-end spaces alone.
            for c, p in [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in cmds]:
                o = p.communicate()[0]
                if p.returncode:
                    print('note: driver not built: %s\n%s' % (c[-1], o.decode(errors='replace')[:500]))
            shutil.copy(os.path.join(REPO, 'library', 'x1algol.lib'), os.path.join(d, 'x1algol.lib'))
            open(os.path.join(d, 'ok'), 'w').close()
        if pascal and not os.path.exists(os.path.join(d, 'x1algol')):
            # The Pascal compiler with the correction that the README describes
            # (passing of formals), which the C compiler has.
            t = os.path.join(d, 'pas')
            os.makedirs(t, exist_ok=True)
            with open(os.path.join(REPO, 'compiler', 'x1algol.pas'), errors='surrogateescape') as fh:
                s = fh.read()
            for a, b in EDITS:
                s = re.sub(a, b, s, flags=re.I)
            with open(os.path.join(t, 'x1.pas'), 'w', errors='surrogateescape') as fh:
                fh.write(s)
            _run([['fpc', '-Miso', '-O1', '-FU' + t, '-FE' + t, '-o' + os.path.join(t, 'x1algol'), os.path.join(t, 'x1.pas')]])
            shutil.copy(os.path.join(t, 'x1algol'), os.path.join(d, 'x1algol'))
        if asan and not os.path.exists(os.path.join(d, 'x1algc.san')):
            csrc = sorted(glob.glob(os.path.join(REPO, 'compiler', '*.c')))
            _run([['gcc', '-std=gnu11', '-O1', '-g', '-w', '-fsanitize=address,bounds', '-fno-sanitize-recover=all']
                  + csrc + ['-o', os.path.join(d, 'x1algc.asan')],
                  # the same with bounds checks only: no start-up cost
                  ['gcc', '-std=gnu11', '-O1', '-w', '-static', '-fsanitize=bounds', '-fsanitize-undefined-trap-on-error']
                  + csrc + ['-o', os.path.join(d, 'x1algc.san.t')]])
            os.rename(os.path.join(d, 'x1algc.san.t'), os.path.join(d, 'x1algc.san'))
        if small and not os.path.exists(os.path.join(d, 'x1small')):
            # the simulator with a small stack (hook X1_STACK_LIMIT)
            _run([['g++', '-std=c++17', '-O2', '-DNDEBUG', '-w', '-static', '-DX1_STACK_LIMIT=%d' % SMALL, '-DVERSION_STRING="verif"']
                  + sorted(glob.glob(os.path.join(REPO, 'simulator', '*.cpp'))) + ['-o', os.path.join(d, 'x1small.t')]])
            os.rename(os.path.join(d, 'x1small.t'), os.path.join(d, 'x1small'))
    return d


SMALL = 3000
EDITS = [(r'and\s*\(\s*fflag\s*=\s*0\s*\)\s*and\s*\(\s*jflag\s*=\s*0\s*\)\s*and\s*\(\s*nflag\s*=\s*1\s*\)', 'and (jflag = 0) and (nflag = 1)')]

if __name__ == '__main__':
    print(build(pascal=True, asan=True, small=True))
