#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl: claimed = a check module exists, the rest go to not_applicable."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}          # id -> reason, for properties that are never claimed
TECH = json.load(open(os.path.join(HERE, 'tools', 'techniques.json')))
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    if os.path.exists(os.path.join(HERE, 'pbt/checks/%s.py' % i.lower())):
        t = TECH.get(i, 'property-based testing: generated cases against an independent reference model (Hypothesis driving a sanitizer-built C executor)')
        checks.append(dict(property=i, level='exploration', technique=t,
                           level_note='generated-input search against an explicit oracle; shrunk failures become replay files; bounds and cost in DESIGN.md',
                           quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
