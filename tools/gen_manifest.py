#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and checks_table.py."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(H, 'tools'))
from checks_table import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 run.py --list', checks=[], not_applicable=[],
         notes='Every check compiles its harness and the library sources from /repo\'s working tree, enumerates the bounded space with the explorer in lib/mc.h and compares each execution of the real code with a reference model. No hooks in /repo are needed.')
for p in props:
    i = p['id']
    if i in CHECKS:
        s = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=s.get('technique', 'explicit enumeration (stateless model checking) of the real code against a reference model'),
            level='model_checking', level_note=s['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'check still being built')))
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed,', len(m['not_applicable']), 'not')
