#!/usr/bin/env python3
"""single source for properties.jsonl and MANIFEST.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, state=state, observe=observe, na=na))


exec(open(os.path.join(V, 'tool', 'table_props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        j = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                         'hook_needed': None}}
        if p['state']:
            j['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        if p['observe']:
            j['anchors']['observe_at'] = list(p['observe'])
        f.write(json.dumps(j) + '\n')
checks, na = [], []
for p in P:
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'],
                   'thorough_cmd': './check.sh %s thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks}
if na:
    m['not_applicable'] = na
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'claimed')
