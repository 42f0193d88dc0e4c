#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks and the properties."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.claims import CLAIMS, NA
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for pid in props:
    if pid in CLAIMS:
        tech, level, note = CLAIMS[pid]
        checks.append(dict(property=pid, quick_cmd='python3 check.py %s' % pid, thorough_cmd='python3 check.py %s --tier=thorough' % pid,
                           technique=tech, level=level, level_note=note))
na = [dict(property=pid, reason=NA.get(pid, 'no check built yet')) for pid in props if pid not in CLAIMS]
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
