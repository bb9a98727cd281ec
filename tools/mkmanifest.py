#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables in check.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
NA = {
    'C21': 'the IOCP backend is Windows-only unsafe code driven by asynchronous completions of the AFD driver; neither its target nor a validated contract of the NT calls is available offline',
}
props = [json.loads(l) for l in open(os.path.join(check.HERE, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s quick' % i,
                   'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
                   'technique': check.TECHNIQUE_FOREIGN if i in check.VERUS_ONLY else check.TECHNIQUE, 'level': check.LEVEL.get(i, 'other'),
                   'level_note': check.NOTE.get(i, check.NOTE_DEFAULT)})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks: the checks extract the code of /repo mechanically on every run (tools/extract.py). Four fix: commits in /repo, see known-findings.txt.'}
json.dump(m, open(os.path.join(check.HERE, 'MANIFEST.json'), 'w'), indent=1)
