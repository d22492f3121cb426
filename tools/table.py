#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md"""
import os, json, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | needs | breaks |', '|----|----|----|----|']
for f in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m['what_it_breaks']))
p = os.path.join(H, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- planted -->\n', '<!-- /planted -->\n'
if a not in s:
    s = s.replace('(see table below)\n', a + b)
s = re.sub(re.escape(a) + '.*?' + re.escape(b), lambda _: a + '\n'.join(rows) + '\n' + b, s, flags=re.S)
open(p, 'w').write(s)
