#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from meta/props.py."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'meta'))
from props import NOT_APPLICABLE, PROPS  # noqa: E402

with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        q = {k: v for k, v in p.items() if k not in ('technique', 'note')}
        f.write(json.dumps(q) + '\n')
checks = []
for p in PROPS:
    if any(n['property'] == p['id'] for n in NOT_APPLICABLE):
        continue
    checks.append(dict(
        property=p['id'], quick_cmd=f"./run.sh {p['id']}",
        thorough_cmd=f"./run.sh {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=p['technique'], level='exploration',
        level_note=p['note']))
man = dict(
    version=1, setup_cmd='./setup.sh', checks=checks,
    not_applicable=NOT_APPLICABLE,
    notes='All checks are property-based (hypothesis, unpacked offline from '
    'the wheelhouse into the git-ignored .deps). No hooks in /repo. '
    'known_findings.json lists recorded findings and repaired defects.')
json.dump(man, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties,', len(checks), 'checks')
