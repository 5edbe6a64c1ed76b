#!/usr/bin/env python3
# Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only; no check reads seeded/).
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- planted -->', '| planted bug | property | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
rows.append('<!-- /planted -->')
p = V + '/DESIGN.md'
s = open(p).read()
t = '\n'.join(rows)
s = s.replace('PLANTED_TABLE', t) if 'PLANTED_TABLE' in s else re.sub(r'<!-- planted -->.*<!-- /planted -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
