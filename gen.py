#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props/defs.py."""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from props import REGISTRY, defs
TECH = ('static analysis: trace-partitioned abstract interpretation of the Python source into guarded value graphs; '
        'equality with the reference value graph decided by random interpretation')
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for d in defs.D:
        f.write(json.dumps({k: v for k, v in d.items() if k not in ('note', 'tech')}) + '\n')
    for d, _ in defs.NA:
        f.write(json.dumps(d) + '\n')
checks = []
for d in defs.D:
    assert d['id'] in REGISTRY, d['id']
    assert len(d['title']) <= 80, d['title']
    checks.append({'property': d['id'], 'quick_cmd': 'python3-vt /verif/check.py %s --tier quick' % d['id'],
                   'thorough_cmd': 'python3-vt /verif/check.py %s --tier thorough' % d['id'], 'technique': d.get('tech') or TECH, 'level': 'other',
                   'level_note': d['note'] or 'Every trace of the analysed calls, at array extents 1-3 and list extents up to 4; graph equality is decided by random interpretation (one-sided error: '
                   'a difference can be missed with small probability, never invented).'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': d['id'], 'reason': r} for d, r in defs.NA],
     'notes': 'check.py PROPERTY analyses /repo from source on every run (nothing of /repo is imported or executed). See DESIGN.md.'}
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
assert set(REGISTRY) == {d['id'] for d in defs.D}, set(REGISTRY) ^ {d['id'] for d in defs.D}
