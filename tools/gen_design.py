"""Writes the table of planted bugs into DESIGN.md (from seeded/*/meta.json)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'seed_notes.json')))
rows = ['<!-- seeded -->', '| bug | property | breaks | needs | caught by |', '|---|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], NOTES.get(d, 'quick check')))
rows.append('<!-- /seeded -->')
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
t = '\n'.join(rows)
s = s.replace('@@SEEDED@@', t) if '@@SEEDED@@' in s else re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
