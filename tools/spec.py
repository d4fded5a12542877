#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # properties
CLAIM = {}      # id -> (technique, level_note)
NA = {}         # id -> reason


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), claim=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=observe, hook_needed=None)))
    if claim:
        CLAIM[id] = claim
    else:
        NA[id] = na


exec(open(os.path.join(V, 'tools', 'properties.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p in P:
        fh.write(json.dumps(p, ensure_ascii=False) + '\n')
man = dict(version=1, setup_cmd='./setup.sh',
           checks=[dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']}",
                        technique=CLAIM[p['id']][0], level='other', level_note=CLAIM[p['id']][1]) for p in P if p['id'] in CLAIM],
           not_applicable=[dict(property=p['id'], reason=NA[p['id']]) for p in P if p['id'] in NA],
           notes='No hooks in /repo: the extractor reads MIR through a rustc driver.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1, ensure_ascii=False)
    fh.write('\n')
