"""writes properties.jsonl and MANIFEST.json from tools/meta.py; properties with a props/<id>.py are claimed"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
import meta
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in meta.P:
        a = dict(files=p['files'], mechanism=p['mechanism'], hook_needed=None)
        if p['state']:
            a['state'] = p['state']
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
checks, na = [], []
import re
for p in meta.P:
    fn = os.path.join(H, 'props', p['id'] + '.py')
    if not os.path.exists(fn):
        na.append(dict(property=p['id'], reason=p['na'] or 'check not built yet'))
        continue
    assert not p['na'], p['id']
    checks.append(dict(property=p['id'], quick_cmd='./check.sh %s' % p['id'], thorough_cmd='./check.sh %s --thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
                       technique='symbolic execution of the current python source (symbolic numpy/scipy values, path forking) with z3 deciding every assertion; counterexamples replayed on the unpatched code',
                       level='model_checking',
                       level_note=(p['note'] + ' ' if p['note'] else '') + 'Bounded: holds for all values within the bounds stated in the evidence file (sizes of complexes, ranges of inputs); floats are read as exact reals up to a stated tolerance; '
                                  'numpy/scipy kernels on concrete data, the integer sorting/grouping kernels and z3 are trusted.'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Engine in vsym/, one harness module per property in props/. known_findings.json lists open findings (reported as KNOWN-FINDING) and fixed defects.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
