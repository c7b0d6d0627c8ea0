#!/usr/bin/env python3
"""Writes DESIGN.md from design.in.md, the harness sources, known_findings.txt and seeded/*/meta.json."""
import json, os, re, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from design_props import D
checks = json.load(open(os.path.join(V, 'checks.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
man = json.load(open(os.path.join(V, 'MANIFEST.json')))
na = {x['property']: x['reason'] for x in man['not_applicable']}
out = []
for p in props:
    i = p['id']
    out.append('### %s %s' % (i, p['title']))
    if i in na:
        out.append('\nNot applicable: ' + na[i] + '\n'); continue
    sp = []
    for h in checks[i]['harness']:
        for m in re.finditer(r'^MC_SPACE\((\w+), (-?\d+), \d+\)', open(os.path.join(V, 'harness', h + '.cpp')).read(), re.M):
            sp.append(m.group(1) + {'-1': '', '0': '', '1': ' (thorough)'}[m.group(2)])
    out.append('\n' + D.get(i, '') + '\n\nSpaces (`harness/%s.cpp`): %s.\n' % ('.cpp`, `harness/'.join(checks[i]['harness'][:3]), ', '.join(sp) if len(sp) < 60 else '%d spaces of all harnesses' % len(sp)))
s = open(os.path.join(V, 'tools/design.in.md')).read()
s = s.replace('@@TABLE@@', '\n'.join(out))
kf = [l.strip() for l in open(os.path.join(V, 'known_findings.txt')) if l.strip() and not l.startswith('#')]
s = s.replace('@@DEFECTS@@', '\n'.join('* ' + re.sub(r'property=(\w+) ([0-9a-f]{7})[0-9a-f]* ', r'\1 (\2) ', l) for l in kf))
res = json.load(open(os.path.join(V, 'tools/seeded_results.json'))) if os.path.exists(os.path.join(V, 'tools/seeded_results.json')) else {}
rows = ['| id | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json')) + glob.glob(os.path.join(V, 'planted_more/*/meta.json'))):
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append('| %s | %s | %s | %s | %s |' % (i, j['property'], j['needs'], j['what_it_breaks'], res.get(i, '(not run)')))
s = s.replace('@@SEEDED@@', '\n'.join(rows))
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
