#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NOTES = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if os.path.exists(os.path.join(V, 'harness', 'checks', pid.lower() + '.py')):
        tech, note = NOTES.get(pid, ('property-based testing (Hypothesis)', 'search over generated inputs; not exhaustive'))
        checks.append({'property': pid,
                       'quick_cmd': 'VERIF_TIER=quick python3-vt run.py ' + pid,
                       'thorough_cmd': 'VERIF_TIER=thorough python3-vt run.py ' + pid,
                       'evidence_file': 'evidence/%s.json' % pid,
                       'technique': tech, 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
m = {'version': 1,
     'setup_cmd': 'python3-vt -c "import hypothesis"',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: every check drives the public API (Assembler subclasses, main()) of the tree in /repo in-process.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
