#!/usr/bin/env python3-vt
"""check.py P01 [quick|thorough]      run the check of a property
check.py --replay FILE              run a recorded counterexample again"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def replay(path):
    from mc import harness as H, build as B
    import tempfile, shutil
    with open(path) as f:
        v = json.load(f)
    exe = {r['args'][0] for r in v['reqs']}
    H.BUILD = B.build(pascal='x1algol' in exe, asan=bool(exe & {'x1algc.san', 'x1algc.asan'}), small='x1small' in exe)
    d = tempfile.mkdtemp()
    reqs = [H.Req(r['args'], list(r['files'].items()), r['stdin'], r['env']) for r in v['reqs']]
    for r, o, old in zip(reqs, H.execute(reqs, d), v['observed']):
        print('args    :', r.args)
        for n, c in r.files:
            print('--- %s\n%s' % (n, c if isinstance(c, str) else c.decode(errors='replace')))
        print('--- observed now :', json.dumps(o.js(), ensure_ascii=False))
        print('--- observed then:', json.dumps(old, ensure_ascii=False))
    print('--- expected:', json.dumps(v['expected'], ensure_ascii=False))
    shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        replay(sys.argv[2])
        sys.exit(0)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    m = importlib.import_module('mc.' + prop.lower())
    sys.exit(m.main(tier))
