#!/usr/bin/env python3
"""writes MANIFEST.json from the list of properties and the table of claimed ones"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from sa.checks import EXPLAIN, TECH, NA
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in TECH:
        c = 'PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 python3 -m sa.run %s --tier ' % i
        m['checks'].append({'property': i, 'quick_cmd': c + 'quick', 'thorough_cmd': c + 'thorough',
                            'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i], 'level': 'other',
                            'level_note': EXPLAIN[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check registered yet: under construction')})
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not applicable')
