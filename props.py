#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it to regenerate both)."""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=None, hook=None, state=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why, anchors=a, _t=technique, _n=note, _na=na))

exec(open(os.path.join(V, 'props_data.py')).read())

checks = json.load(open(os.path.join(V, 'checks.json')))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 build.py --quick', 'checks': [], 'not_applicable': [],
     'notes': 'See DESIGN.md. One seed is one exactly repeatable run; build.py rebuilds from /repo by content hash; replay: build/<variant>/bin/<harness> --replay FILE.'}
for p in P:
    if p['id'] in checks and not p['_na']:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                            'technique': p['_t'] or 'deterministic simulation with fault injection (seeded search)', 'level': checks[p['id']]['level'], 'level_note': p['_n'] or ''})
    else: m['not_applicable'].append({'property': p['id'], 'reason': p['_na'] or 'no check built yet'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
