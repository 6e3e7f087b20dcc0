#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/design_notes.py, properties.jsonl, the SECTION lines of harness/*.cpp,
known_findings.txt, MANIFEST.json and seeded/*/meta.json (with tools/seed_results.txt)."""
import json, re, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + '/tools/design_notes.py').read())
out = [open(V + '/tools/design_head.md').read().rstrip() + '\n']
kf = [l.strip() for l in open(V + '/known_findings.txt') if re.match(r'(known|fixed): ', l)]
out.append('## Properties\n\nFor each: the space explored (one line per section of the driver; every element of it is executed), the oracle, what the\nexploration found, and what is not claimed or was corrected. Cases, states and transitions of the last run are in `evidence/<ID>.json`.\n')
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; src = V + '/harness/%s.cpp' % i
    out.append('### %s %s\n' % (i, p['title']))
    if os.path.exists(src):
        for n, b in re.findall(r'^SECTION\("([^"]*)",\s*"((?:[^"\\]|\\.)*)"', open(src).read(), re.M): out.append('* *%s*: %s' % (n, b))
    o, x = N.get(i, ('', ''))
    out.append('* Oracle: %s.' % o)
    fx = [re.sub(r'^\w+: property=\S+ ', '', k) for k in kf if k.startswith('fixed: property=%s ' % i)]; kn = [k.split('::', 1)[-1].strip() for k in kf if k.startswith('known: property=%s ' % i)]
    if fx: out.append('* Repaired (%d): %s.' % (len(fx), '; '.join(fx)))
    for k in kn: out.append('* Known finding: %s.' % k.rstrip('.'))
    if x: out.append('* Limits: %s' % x)
    out.append('')
m = json.load(open(V + '/MANIFEST.json'))
na = m.get('not_applicable') or []
out.append('## Not applicable\n\n' + ('\n'.join('* %s: %s' % (a['id'], a['reason']) for a in na) if na else 'None: every listed property is decided by exploration.') + '\n')
out.append('## Planted bugs\n\nEach is in `seeded/<ID>/` (patch, demonstration, what it needs). The last column names the checks that reported it.\n\n| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|')
res = {}
f = V + '/tools/seed_results.txt'
if os.path.exists(f):
    for l in open(f):
        a = l.split(None, 1)
        if len(a) == 2: res[a[0]] = a[1].strip()
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    b = os.path.basename(os.path.dirname(d)); j = json.load(open(d)); out.append('| %s | %s | %s | %s | %s |' % (b, j['property'], j['needs'].replace('|', '/'), j['what_it_breaks'].replace('|', '/'), res.get(b, '?')))
open(V + '/DESIGN.md', 'w').write('\n'.join(out).rstrip() + '\n')
