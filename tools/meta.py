#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand; the outputs are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'src/app/'
U = A + 'common/ua/common/'
M = A + 'modbus/'
R = A + 'common/reactor/'
P = []
C = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, level='exploration'):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
    C.append({'property': id, 'quick_cmd': f'./check.sh {id} quick', 'thorough_cmd': f'./check.sh {id} thorough',
              'evidence_file': f'evidence/{id}.json', 'technique': technique, 'level': level, 'level_note': note})

exec(open(os.path.join(V, 'tools', 'properties.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': C, 'not_applicable': [],
     'notes': 'No hooks in /repo: the harnesses link the unmodified sources. /repo carries "fix:" commits only (see known-findings.txt).'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(P), 'properties')
