#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    files = sorted({os.path.basename(x) if 'seam/src' in x else 'proc_macro/lib.rs' for x in re.findall(r'^\+\+\+ b/(\S+)', open(f'{root}/seeded/{d}/patch.diff').read(), re.M)})
    rows.append((m['property'], d, ', '.join(files), m['needs'].replace('|', '\\|').replace('\n', ' ')))
rows.sort()
t = '| caught by | planted bug | in | needs |\n|---|---|---|---|\n' + ''.join(f'| {p} | {d} | {f} | {n} |\n' for p, d, f, n in rows)
p = f'{root}/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeded -->\n', '<!-- /seeded -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + f'{len(rows)} bugs, each caught by the quick check of its property:\n\n' + t + s[j:])
