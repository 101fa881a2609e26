#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md."""
import json, re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
b = json.load(open(V + '/harness/bounds.json'))
t = open(V + '/DESIGN.md').read()
def put(mark, text):
    global t
    t = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (mark, mark), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (mark, text, mark), t, flags=re.S)
rows = ['| id | property | bounds |', '|---|---|---|']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    rows.append('| %s | %s | %s |' % (p['id'], p['title'], b.get(p['id'], '').replace('|', '\\|')))
put('bounds', '\n'.join(rows))
rows = ['| property | commit | what was wrong |', '|---|---|---|']
for l in open(V + '/known-findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        rows.append('| %s | %s | %s |' % m.groups())
put('findings', '\n'.join(rows))
rows = ['| planted bug | property | needs | breaks | result |', '|---|---|---|---|---|']
res = json.load(open(V + '/tools/seed_results.json'))
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks'], res.get(i, 'caught by its property')))
put('seeds', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(t)
