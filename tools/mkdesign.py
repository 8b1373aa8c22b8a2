#!/usr/bin/env python3
# DESIGN.md: the hand-written part and the generated tables
import json, re, glob, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
out = open('tools/design_head.md').read().rstrip() + '\n'
props = [json.loads(l) for l in open('properties.jsonl')]
out += '\n## 5. Proofs\n\n| property | unit | proof | kind | bound | functions |\n|---|---|---|---|---|---|\n'
for p in props:
    i = p['id']
    for f in sorted(glob.glob('props/%s/*.c' % i)):
        for l in open(f):
            m = re.match(r'//@proof (\S+)(.*)', l)
            if not m:
                continue
            d = dict(x.split('=', 1) for x in m[2].split() if '=' in x)
            out += '| %s | %s | %s | %s | %s | %s |\n' % (i, os.path.basename(f), m[1], d.get('kind', 'proof') + (' (thorough)' if d.get('tier') == 'thorough' else ''),
                    d.get('bound', '').replace('_', ' ').replace('|', '\\|'), ', '.join('`%s`' % x for x in d.get('covers', '').split(',') if x))
out += '\n## 6. Defects found in amelie and repaired, and known findings\n\n'
out += 'Each was first seen as a failing check, confirmed on the real code and repaired by one `fix:` commit in `/repo`.\n\n'
for l in open('known-findings.txt'):
    if l.startswith(('fixed:', 'known:')):
        out += '* ' + l.strip() + '\n'
out += '\n## 7. Planted bugs\n\n| bug | property | needs | what it breaks | caught by |\n|---|---|---|---|---|\n'
caught = json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
for f in sorted(glob.glob('seeded/*/meta.json')):
    b = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    c = caught.get(b, '')
    out += '| %s | %s | %s | %s | %s |\n' % (b, m['property'], m['needs'].replace('|', '\\|'), m['what_it_breaks'].replace('|', '\\|'), c)
open('DESIGN.md', 'w').write(out)
