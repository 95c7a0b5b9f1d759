#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, TECH, NOTES, NA
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 check.py --selftest', checks=[], not_applicable=[],
         notes='See DESIGN.md. Every check compiles its harness against /repo/src as it is and runs it under '
               'sanitizers with online monitors; known-findings.txt lists repaired and recorded defects.')
for p in props:
    if p in CHECKS:
        m['checks'].append(dict(property=p, quick_cmd='python3 check.py %s quick' % p,
                                thorough_cmd='python3 check.py %s thorough' % p,
                                technique=TECH.get(p, TECH['*']), level='exploration',
                                level_note=NOTES.get(p, NOTES['*']), evidence_file='evidence/%s.json' % p))
    else:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'check not built yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
