#!/usr/bin/env python3
"""rewrites the table of planted changes in DESIGN.md, between its two markers; all have been confirmed with tools/seed.py --checks"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | what it needs to show | reported by |', '|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*') + glob.glob(V + '/planted_asm/*'), key=os.path.basename):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s |' % (os.path.basename(d), m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
p = V + '/DESIGN.md'
t = open(p).read()
t = re.sub(r'(?s)<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', t)
open(p, 'w').write(t)
