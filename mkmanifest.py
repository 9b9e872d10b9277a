# -*- coding: utf-8 -*-
"""Write MANIFEST.json from the check modules that exist."""
import ast
import json
import os

here = os.path.dirname(os.path.abspath(__file__))

NOTES = {}
with open(os.path.join(here, 'notes.json'), encoding='utf-8') as f:
    NOTES = json.load(f)

checks = []
missing = []
with open(os.path.join(here, 'properties.jsonl'), encoding='utf-8') as f:
    ids = [json.loads(l)['id'] for l in f if l.strip()]
for pid in ids:
    path = os.path.join(here, 'checks', pid.lower() + '.py')
    if not os.path.exists(path) or pid not in NOTES:
        missing.append({'property': pid,
                        'reason': 'no check has been built yet'})
        continue
    level = None
    with open(path, encoding='utf-8') as f:
        for node in ast.parse(f.read()).body:
            if isinstance(node, ast.Assign) and \
                    getattr(node.targets[0], 'id', '') == 'LEVEL':
                level = node.value.value
    technique, note = NOTES[pid]
    checks.append({
        'property': pid,
        'quick_cmd': './check %s --tier quick' % pid,
        'thorough_cmd': './check %s --tier thorough' % pid,
        'technique': technique,
        'level': level,
        'level_note': note,
    })
m = {'version': 1,
     'setup_cmd': 'python3 -m compileall -q mc checks >/dev/null; true',
     'checks': checks,
     'not_applicable': missing}
with open(os.path.join(here, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
