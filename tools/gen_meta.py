#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py and claims.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props, claims
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
ids = [p['id'] for p in props.P]
checks = []
for pid in ids:
    if pid in claims.CLAIMED:
        level, note = claims.CLAIMED[pid]
        c = dict(property=pid,
                 quick_cmd='python3-vt check.py %s' % pid,
                 thorough_cmd='python3-vt check.py %s --thorough' % pid,
                 evidence_file='evidence/%s.json' % pid,
                 technique=claims.TECHNIQUE, level=level, level_note=note)
        checks.append(c)
na = [dict(property=p, reason=r) for p, r in claims.NOT_APPLICABLE.items()]
missing = [p for p in ids if p not in claims.CLAIMED and p not in claims.NOT_APPLICABLE]
na += [dict(property=p, reason='no check built yet') for p in missing]
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na, notes=claims.NOTES)
if claims.HOOKS:
    m['hooks'] = claims.HOOKS
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(ids), 'properties', len(checks), 'checks', len(na), 'n/a')
