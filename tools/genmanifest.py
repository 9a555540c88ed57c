#!/usr/bin/env python3
"""Writes MANIFEST.json from the claims below and the titles in properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        tech, level, note = CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': './check.sh ' + i + ' thorough',
                       'technique': tech, 'level': level, 'level_note': note})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE[i]})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
