#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written parts are in design/*.md, the spaces with their rules are read from mc/pNN.py,
findings and fixes from known_findings.json, planted bugs from seeded/*/meta.json + design/caught.json."""
import importlib, inspect, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def rd(f):
    return open(os.path.join(HERE, f)).read()


def sections(text):
    out = {}
    for part in re.split(r'^## (?=P\d\d)', text, flags=re.M)[1:]:
        out[part[:3]] = part[3:].strip()
    return out


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    per = sections(rd('design/properties.md'))
    out = [rd('design/intro.md').rstrip(), '', '## The properties', '']
    for p in props:
        m = importlib.import_module('mc.' + p['id'].lower())
        out += ['### %s  %s' % (p['id'], p['title']), '', p['statement'], '', per[p['id']], '']
        rows = []
        for _, c in sorted(inspect.getmembers(m, inspect.isclass), key=lambda x: x[0]):
            if c.__module__ != m.__name__ or not getattr(c, 'rule', None) or not isinstance(getattr(c, 'name', None), str):
                continue
            if 'rule' in c.__dict__ and 'name' in c.__dict__:
                rows.append((inspect.getsourcelines(c)[1], c.name, ' '.join(c.rule.split())))
        if rows:
            out += ['Spaces enumerated:', '']
            out += ['* **%s**: %s' % (n, r) for _, n, r in sorted(rows)]
            out += ['']
    out += [rd('design/after.md').rstrip(), '']
    k = json.load(open(os.path.join(HERE, 'known_findings.json')))
    out += ['## Defects repaired in /repo', '', 'One `fix:` commit each; the same list stands in known_findings.json.', '']
    out += ['* %s' % re.sub(r'^fixed: ', '', x) for x in k.get('fixed', [])]
    out += ['', '## Known findings (defects recorded, not repaired)', '']
    seen = {}
    for f in k['findings']:
        seen.setdefault((f['property'], f['what'].split('(self-step')[0].rstrip(' (')), []).append(f.get('key') or f.get('key_regex'))
    for (pid, what), keys in seen.items():
        out += ['* %s: %s  [%s]' % (pid, what, '; '.join(keys))]
    out += ['', '## Planted bugs', '', 'Each is in seeded/<id>/ (patch, demonstration, what it needs). "Caught by" was established by applying the patch and running the quick checks.', '',
            '| id | property | caught by | what it breaks | needs |', '|---|---|---|---|---|']
    caught = json.load(open(os.path.join(HERE, 'design/caught.json')))
    sd = os.path.join(HERE, 'seeded')
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, d, 'meta.json')))
        out += ['| %s | %s | %s | %s | %s |' % (d, m['property'], caught.get(d, '?'), ' '.join(m['what_it_breaks'].split()).replace('|', '\\|'), ' '.join(m['needs'].split()).replace('|', '\\|'))]
    out += ['', rd('design/end.md').rstrip()]
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


main()
