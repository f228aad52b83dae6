#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, note, technique='TLA+ model explored by TLC; covering walks and random scripts replayed in the real library; TLC trace validation',
         level='model_checking', hook=None, state=None):
    e = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': hook}}
    if state:
        e['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    P.append((e, note, technique, level))


exec(open(os.path.join(V, 'tools', 'table.py')).read())

P.sort(key=lambda x: x[0]['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for e, *_ in P:
        f.write(json.dumps(e) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 lib/build.py', 'checks': [], 'not_applicable': NA}
for e, note, tech, level in P:
    m['checks'].append({'property': e['id'], 'quick_cmd': 'VERIF_TIER=quick ./check.py ' + e['id'],
                        'thorough_cmd': 'VERIF_TIER=thorough ./check.py ' + e['id'], 'evidence_file': 'evidence/%s.json' % e['id'],
                        'technique': tech, 'level': level, 'level_note': note})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
