#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below: python3 tools/gen.py (from anywhere)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'models/transmissionline/'
def src(*names): return [x for n in names for x in ('include/models/%s.h' % n, 'src/%s.cc' % n)]
P = []
def prop(id, title, statement, over, text, why, files, mech, note=None, na=None, technique=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na, technique=technique, state=state))
exec(open(os.path.join(HERE, 'tools', 'table.py')).read())
TECH = 'symbolic execution of the LLVM IR of the real sources, assertions decided by Z3 (bit-blast-free real arithmetic and uninterpreted floating point), counterexamples replayed natively'
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        anchors = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['state']: anchors['state'] = [dict(name=n, meaning=m) for n, m in p['state']]
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=anchors)) + '\n')
        assert len(p['title']) <= 80, p['id']
checks = []; na = []
for p in P:
    if p['na'] or not os.path.exists(os.path.join(HERE, 'harness', p['id'] + '.cc')):
        na.append(dict(property=p['id'], reason=p['na'] or 'no harness for it has been built yet')); continue
    checks.append(dict(property=p['id'], quick_cmd='python3 run.py ' + p['id'],
        thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
        technique=p['technique'] or TECH, level='model_checking', level_note=p['note']))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='bash engine/build.sh .build', checks=checks, not_applicable=na), f, indent=1); f.write('\n')
