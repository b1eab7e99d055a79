#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registry and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/run')
import registry
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        checks.append(dict(
            property=i, quick_cmd='python3 run/check.py %s quick' % i,
            thorough_cmd='python3 run/check.py %s thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique=registry.TECHNIQUE.get(i, registry.DEFAULT_TECHNIQUE),
            level=registry.CHECKS[i][1],
            level_note=registry.NOTE.get(i, registry.DEFAULT_NOTE)))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, 'no check registered yet; planned as described in DESIGN.md')))
m = dict(version=1, setup_cmd='bash run/setup.sh', checks=checks,
         not_applicable=na,
         notes='TLA+ specification in spec/, checked with TLC; harnesses in harness/ are compiled from /repo sources at check time.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
