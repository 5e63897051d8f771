#!/usr/bin/env python3
"""writes MANIFEST.json from lib/plan.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, 'lib'))
from plan import PLAN
checks = []
for pid in sorted(PLAN):
    p = PLAN[pid]
    checks.append(dict(property=pid, quick_cmd='python3 check.py %s' % pid, thorough_cmd='python3 check.py %s --tier thorough' % pid,
                       technique=p['technique'], level=p['level'], level_note=p['note']))
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
na = [dict(property=i, reason='check not built yet') for i in props if i not in PLAN]
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo: every check uses the public API. Fixes are listed in known-findings.txt.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
