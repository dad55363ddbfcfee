#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sim'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 sim/build.py', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection: ' + p.get('technique', 'seeded schedules on the real library, reference-model oracle'),
            'level': 'exploration',
            'level_note': p.get('note', 'Sampled, not exhaustive: seeded search over schedules, operations and faults; every reported violation replays exactly.')})
    else:
        m['not_applicable'].append({'property': i, 'reason': props.NOT_APPLICABLE.get(i, 'check under construction')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
