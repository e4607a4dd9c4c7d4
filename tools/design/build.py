#!/usr/bin/env python3
"""Puts DESIGN.md together; section 6 is made from seeded/*/meta.json."""
import json, os
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(H, '..', '..')
rd = lambda n: open(os.path.join(H, n)).read()
miss = {}
for l in rd('6-misses.txt').splitlines():
    if l.strip():
        i, w = l.split('|', 1); miss[i.strip()] = w.strip()
out = rd('1-head.md') + rd('2-props.md') + rd('4-findings.md')
S = os.path.join(V, 'seeded')
ids = sorted(d for d in os.listdir(S) if os.path.exists(os.path.join(S, d, 'meta.json')))
out += f"""
## 6. Planted changes

{len(ids)} changes are kept in `seeded/`, each written from a statement and the code,
verified to build, to pass the stable tests and to fail its demonstration. Every
one is reported by the check of the property it was written against (many by
other checks as well). "Was missed" tells what was added for it.

| change | property | needs | breaks | was missed |
|---|---|---|---|---|
"""
for i in ids:
    m = json.load(open(os.path.join(S, i, 'meta.json')))
    c = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    out += f"| {i} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} | {c(miss.get(i, ''))} |\n"
out += rd('7-campaign.md') + rd('8-limits.md')
open(os.path.join(V, 'DESIGN.md'), 'w').write(out)
