#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.
Run: python3 tools/mk.py   (the outputs are committed)"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, q, why, files, mech, tech, note, claimed=True, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files,
                  mech=mech, tech=tech, note=note, claimed=claimed, na=na))
exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())
ids = [p['id'] for p in P]
assert len(ids) == len(set(ids))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        d = dict(id=p['id'], title=p['title'], statement=' '.join(p['statement'].split()),
                 quantifier=dict(over=p['over'], text=p['q']), why_tests_cant=' '.join(p['why'].split()),
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
        f.write(json.dumps(d) + '\n')
have = set(sys.argv[1:]) or set(subprocess.run(['bash', os.path.join(ROOT, 'run.sh'), '-list'], capture_output=True, text=True).stdout.split())
checks, na = [], []
for p in P:
    if p['id'] in have and not p['na']:
        c = 'bash run.sh ' + p['id']
        checks.append(dict(property=p['id'], quick_cmd=c, thorough_cmd='VERIF_TIER=thorough ' + c,
                           technique=p['tech'], level='other', level_note=' '.join(p['note'].split())))
    else:
        na.append(dict(property=p['id'], reason=p['na'] or 'the check for this property is still being built'))
m = dict(version=1, setup_cmd='bash run.sh --setup', checks=checks, not_applicable=na,
         notes='All checks are one static analyser (checker/, Go) that type-checks and builds SSA from /repo on every run; nothing of /repo is executed. No hooks in /repo.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
print(len(P), 'properties,', len(checks), 'checks,', len(na), 'not applicable')
