#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
NA = {}
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': [],
    'not_applicable': [],
    'notes': 'No hooks are needed in /repo: the checks build the unchanged sources. Fixes of genuine defects are listed in known_findings.txt.',
}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append({'property': p, 'quick_cmd': f'python3 check.py {p}', 'thorough_cmd': f'python3 check.py {p} --tier thorough',
                            'technique': c['technique'], 'level': c.get('level', 'model_checking'), 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'No check for it has been built yet.')})
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
open(HERE + '/MANIFEST.json', 'a').write('\n')
