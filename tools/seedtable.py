#!/usr/bin/env python3
"""Fills the table of planted bugs into DESIGN.md."""
import json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs'].strip()} | {m.get('caught_by', m['property'])} |")
s = open('DESIGN.md').read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->', s, flags=re.S)
open('DESIGN.md', 'w').write(s)
