#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json
import os
from registry import CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)['id'] for x in open(V + '/properties.jsonl') if x.strip()]
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                                thorough_cmd='python3 check.py %s --tier thorough' % i,
                                evidence_file='evidence/%s.json' % i, technique=c['technique'], level=c['level'],
                                level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check yet (work in progress)')))
m['notes'] = ('No hooks in /repo are needed: concurrency is explored by interposing on pthread calls and TSan instrumentation '
              'callbacks at link time. Every check builds what it needs from /repo\'s working tree into /verif/.cache, '
              'addressed by content.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
