#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- seeded -->', '| change | caught by | what it breaks | shows when |', '|---|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json'), key=lambda f: (json.load(open(f))['property'], f)):
    m = json.load(open(f))
    rows.append('| `%s` | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'], m['needs']))
rows.append('<!-- end seeded -->')
p = here + '/DESIGN.md'
s = open(p).read()
t = '\n'.join(rows)
if 'TABLE' in s:
    s = s.replace('TABLE', t, 1)
else:
    s = re.sub(r'<!-- seeded -->.*<!-- end seeded -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
