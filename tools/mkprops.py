#!/usr/bin/env python3
"""writes properties.jsonl from the table below (kept so that the file stays consistent)."""
import json, os, re
P = []
def three(text):
    """at most three sentences: further ones are joined to the third."""
    parts = re.split(r'(?<=[.])\s+(?=[A-Z])', text)
    out = ' '.join(parts[:3])
    for x in parts[3:]:
        out = out.rstrip('.') + '; ' + (x if len(x) > 1 and x[1].isupper() else x[0].lower() + x[1:])
    return out
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': three(statement),
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_table.py')).read())
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
