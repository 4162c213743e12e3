#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.head.md, the checks' own descriptions, MANIFEST.json and the planted changes."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
M = json.load(open(V + '/MANIFEST.json'))
tech = {c['property']: c['technique'] for c in M['checks']}
na = {c['property']: c['reason'] for c in M['not_applicable']}
o = [open(V + '/tools/DESIGN.head.md').read()]
o.append('## 2. Properties and how each is decided\n')
for p in P:
    f = V + '/checks/%s.py' % p['id']
    if p['id'] not in tech: continue
    t = ast.parse(open(f).read())
    o.append('### %s %s\n' % (p['id'], p['title']))
    o.append('*%s.* %s\n' % (tech[p['id']].replace('static analysis: ', '').capitalize(), ' '.join(ast.get_docstring(t).split())))
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'BOUNDS': o.append('Bounds: ' + ' '.join(ast.literal_eval(n.value).split()) + '\n')
o.append('## 3. Properties static analysis does not decide here\n')
for p in P:
    if p['id'] in na: o.append('* **%s %s** - %s' % (p['id'], p['title'], na[p['id']]))
o.append('\n## 4. Planted changes and the checks that catch them\n')
o.append('| planted change | property (check) | what it needs | what it breaks |\n|---|---|---|---|')
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); cl = lambda s: ' '.join(s.split()).replace('|', '/')
    o.append('| %s | %s%s | %s | %s |' % (m.split('/')[-2], d['property'], '' if d['property'] in tech else ' (no check)', cl(d['needs']), cl(d['what_it_breaks'])))
o.append(open(V + '/tools/DESIGN.tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
