#!/usr/bin/env python3
"""Rewrites the catch matrix at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(f'{R}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
t = open(R + '/DESIGN.md').read()
i = t.index('| change | caught by | needs |')
t = t[:i] + '| change | caught by | needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
t = re.sub(r'Every seeded change \(\d+\)', f'Every seeded change ({len(rows)})', t)
open(R + '/DESIGN.md', 'w').write(t)
print(len(rows))
