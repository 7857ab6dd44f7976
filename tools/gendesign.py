#!/usr/bin/env python3
"""Refreshes the planted-bug table in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
rows = ['', '| planted bug | property | what it breaks | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); i = m.split('/')[-2]; rows.append('| %s | %s | %s | %s |' % (i, d['property'], d['what_it_breaks'], c.get(i, '?')))
t = open(V + '/DESIGN.md').read(); b, e = '<!-- seeds -->', '<!-- end seeds -->'
new = b + '\n'.join(rows) + '\n' + e
t = t.replace('@SEEDS@', new) if '@SEEDS@' in t else re.sub(re.escape(b) + '.*?' + re.escape(e), lambda _: new, t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
