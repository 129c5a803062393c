#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so that wording and anchors stay in one readable place)."""
import json, os, re
H = 'strtk.hpp'
P = []


def prop(id, title, statement, over, text, why, mech, observe=None, hook=None, state=None):
    assert len(title) <= 80, title
    a = {'files': [H], 'mechanism': [{'name': n, 'where': H + ': ' + w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': H + ': ' + w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = hook
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties_text.py')).read())
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
