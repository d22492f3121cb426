#!/usr/bin/env python3
"""creates seeded/<id> from a description:  plant.py NAME < spec
spec: lines 'property:', 'needs:', 'breaks:', then sections '--- file', '<<<<', '====', '>>>>' and finally '@@demo' python source"""
import sys, os, json, re, subprocess, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name = sys.argv[1]
spec = sys.stdin.read()
head, demo = spec.split('@@demo\n')
meta = {}
for k, key in (('property', 'property'), ('needs', 'needs'), ('breaks', 'what_it_breaks')):
    meta[key] = re.search(r'^%s: (.*)$' % k, head, re.M).group(1)
scr = '/tmp/plant_%s' % name
shutil.rmtree(scr, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', '/repo', scr])
for m in re.finditer(r'^--- (\S+)\n((?:<<<<\n.*?\n====\n.*?>>>>\n)+)', head, re.M | re.S):
    p = os.path.join(scr, m.group(1))
    t = open(p, newline='').read()
    crlf = '\r\n' in t
    for e in re.finditer(r'<<<<\n(.*?)\n====\n(.*?)\n?>>>>\n', m.group(2), re.S):
        a, b = e.group(1), e.group(2)
        if crlf:
            a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
        assert t.count(a) == 1, (m.group(1), a, t.count(a))
        t = t.replace(a, b)
    open(p, 'w', newline='').write(t)
d = os.path.join(H, 'seeded', name)
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(['git', '-C', scr, 'diff'])
assert diff
open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
json.dump(meta, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
open(os.path.join(d, 'demo.py'), 'w').write(demo)
open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/mplconfig} PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
''')
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
shutil.rmtree(scr)
print('planted', name, len(diff))
