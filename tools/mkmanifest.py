#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks observe libfsm through its public API, its programs and compiler instrumentation', 'source_commits': []}, 'checks': [], 'not_applicable': []}
WIP = set()
for p in props:
    c = CHECKS.get(p['id'])
    if c is None or p['id'] in WIP:
        m['not_applicable'].append({'property': p['id'], 'reason': 'no check built yet'}); continue
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py ' + p['id'] + ' --tier thorough',
        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': c['technique'], 'level': c.get('level', 'exploration'), 'level_note': c['note'] or 'held on the executions generated, within the bounds in DESIGN.md'})
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); print(len(m['checks']), 'claimed;', [x['property'] for x in m['not_applicable']])
