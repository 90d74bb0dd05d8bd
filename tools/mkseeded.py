"""Rewrites the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json and tools/caught.txt."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first = {}
for line in open(os.path.join(V, 'tools/caught.txt')):
    k, _, t = line.strip().partition(' ')
    if k:
        first[k] = t
rows = ['| planted bug | check | needs | caught |', '|---|---|---|---|']
S = os.path.join(V, 'seeded')
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, 'meta.json')))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {first.get(d, 'yes')} |")
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- seeded -->\n', '<!-- /seeded -->'
s = s.replace('@@SEEDED@@', a + b)
s = re.sub(re.escape(a) + '.*' + re.escape(b), lambda _: a + '\n'.join(rows) + '\n' + b, s, flags=re.S)
n = sum(l.startswith('fixed:') for l in open(os.path.join(V, 'known-findings.txt')))
s = re.sub(r'(with their commits: )(@@NFIX@@|\d+) defects', rf'\g<1>{n} defects', s)
open(p, 'w').write(s)
