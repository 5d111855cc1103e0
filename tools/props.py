#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run after every change to this file."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    assert len(title) <= 80, title
    C.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over.split(), 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], **({'observe_at': observe} if observe else {})},
              '_t': technique, '_n': note, '_na': na})


exec(open(V + '/tools/claims.py').read())
with open(V + '/properties.jsonl', 'w') as f:
    for c in C:
        f.write(json.dumps({k: v for k, v in c.items() if k[0] != '_'}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 run.py setup',
     'checks': [{'property': c['id'], 'quick_cmd': f'python3 run.py {c["id"]}', 'thorough_cmd': f'python3 run.py {c["id"]} --thorough',
                 'technique': c['_t'], 'level': 'other', 'level_note': c['_n']} for c in C if not c['_na']],
     'not_applicable': [{'property': c['id'], 'reason': c['_na']} for c in C if c['_na']],
     'notes': 'All checks are source-level static analyses over an IR of the whole C++ program (extracted with clang on every run and cached by content hash) or over token-level views of the units whose third-party headers are not installed.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(C), 'properties,', len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
