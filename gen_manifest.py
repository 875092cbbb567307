#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a module mc/pNN.py is claimed."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
INFO = {}
exec(open(os.path.join(V, 'mc', 'levels.py')).read(), INFO)
INFO = INFO['LEVELS']
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc', i.lower() + '.py')) and i in INFO:
        level, tech, note = INFO[i]
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i,
                           thorough_cmd='python3-vt check.py %s thorough' % i,
                           technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason='no check has been built for it yet'))
m = dict(version=1, setup_cmd='python3-vt mc/build.py', checks=checks, not_applicable=na,
         hooks=dict(guard='X1_STACK_LIMIT', enable='-DX1_STACK_LIMIT=3000 when simulator/*.cpp is compiled into x1small (mc/build.py); used by P22 only', source_commits=['9a3d37d64cc69ce29cb977572c0972bab8fe7e23']),
         notes='The programs are explored through their real interfaces (command line, source and object files, library API); the only hook lowers the stack limit of a verification build.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'claimed', len(na), 'not')
