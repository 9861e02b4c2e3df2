#!/usr/bin/env python3
"""Writes the table of planted bugs of DESIGN.md (after its '## Planted bugs'
heading, to the end of the file) from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(f'{here}/DESIGN.md').read()
head = d[:d.index('<!-- bugs -->')]
out = ['<!-- bugs -->', '', '| bug | caught by | what it needs |', '|---|---|---|']
for b in sorted(os.listdir(f'{here}/seeded')):
    m = json.load(open(f'{here}/seeded/{b}/meta.json'))
    also = ' '.join(m.get('also', []))
    out.append(f"| {b} | {m['property']} {also}".rstrip() + f" | {' '.join(str(m['needs']).split()).replace('|', '/')} |")
open(f'{here}/DESIGN.md', 'w').write(head + '\n'.join(out) + '\n')
