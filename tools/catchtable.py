#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import collections, json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
s = open('DESIGN.md').read()
d = collections.defaultdict(list)
for i in sorted(os.listdir('seeded')):
    d[json.load(open(f'seeded/{i}/meta.json'))['property']].append(i)
a = s.index('|-------|--------------------|\n', s.index('## Planted changes')) + len('|-------|--------------------|\n')
b = s.index('\n\n', a - 1) + 1
order = sorted(d, key=lambda p: ('SGTFRBC'.index(p[0]), p))
rows = ''.join(f"| {p} | {', '.join('`' + x + '`' for x in d[p])} |\n" for p in order)
open('DESIGN.md', 'w').write(s[:a] + rows + s[b:])
