"""Regenerate MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = {}
NOTE = {}
exec(open(os.path.join(V, 'tools', 'levels.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i in NOT_APPLICABLE:
        continue
    checks.append(dict(
        property=i,
        quick_cmd='/opt/venv/bin/python check.py %s' % i,
        thorough_cmd='/opt/venv/bin/python check.py %s' % i,
        evidence_file='evidence/%s.json' % i,
        technique=TECH.get(i, TECH_DEFAULT),
        level=LEVEL.get(i, LEVEL_DEFAULT),
        level_note=NOTE.get(i, NOTE_DEFAULT)))
m = dict(version=1, setup_cmd='true',
         checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
         notes='Verification of karabo_data by contracts on the real functions; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
