#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json. Run: python3 props.py"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, built=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, built=built))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_data.py')).read())
here = os.path.dirname(os.path.abspath(__file__))
with open(here + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['observe'], hook_needed=('cfg fundsp_mc: 32-bit atomics forwarded to the model checker (src/mcatomic.rs)' if p['id'] == 'C16' else None)))
        f.write(json.dumps(d) + '\n')
checks = []
na = []
for p in P:
    if p['built']:
        checks.append(dict(property=p['id'], quick_cmd='./run.sh ' + p['id'], thorough_cmd='./run.sh ' + p['id'] + ' thorough',
            evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='model_checking', level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason='check not built yet'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
  notes='One harness crate (mc/) linked against /repo; every check enumerates its bounded space of histories on the real code.')
HOOKS = globals().get('HOOKS')
if HOOKS: m['hooks'] = HOOKS
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
