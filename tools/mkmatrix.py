#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (development only; no check reads seeded/)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}          # id -> why it is not caught
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'], ('missed: ' + MISSED[i]) if i in MISSED else d['property'] + ' quick'))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(<!-- matrix -->\n).*?(<!-- /matrix -->)', lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
