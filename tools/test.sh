#!/bin/bash
# runs the repository's own tests and prints which stable tests fail
bash /opt/vp/test.sh /tmp/o.json >/tmp/o.log 2>&1
python3 - <<'PY'
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print(len(o['passed']), 'passed; stable missing:', sorted(set(b['stable'])-set(o['passed'])))
PY
