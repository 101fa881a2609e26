#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the harnesses and the table below."""
import json, re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = set()
for f in glob.glob(V + '/harness/**/*.go', recursive=True):
    for m in re.finditer(r'^func VH_([A-Z]\d\d)_', open(f).read(), re.M):
        have.add(m.group(1))
na = json.load(open(V + '/tools/not_applicable.json'))
notes = json.load(open(V + '/tools/level_notes.json'))
default = ("Bounded symbolic execution of the Go SSA built from the current tree; every branch and assertion is decided by the SMT solver for all values "
           "within the bounds stated in DESIGN.md and in the harness; counterexamples are replayed natively before they are reported. "
           "Trusted: the SSA interpreter and its models of runtime, sync, time, net, os and fmt, which native runs of sampled paths cross-check.")
checks = []
nap = []
for p in props:
    i = p['id']
    if i in na or i not in have:
        nap.append({'property': i, 'reason': na.get(i, 'no check built yet')})
        continue
    checks.append({
        'property': i,
        'quick_cmd': './check.sh %s' % i,
        'thorough_cmd': 'VERIF_TIER=thorough ./check.sh %s' % i,
        'technique': notes.get(i, {}).get('technique', 'solver-based symbolic execution of the Go SSA (SMT), native replay'),
        'level': 'model_checking',
        'level_note': (notes.get(i, {}).get('note', '') + ' ' + default).strip(),
    })
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': checks, 'not_applicable': nap,
     'notes': 'No hooks in /repo: harnesses are compiled into the packages by overlay (go/packages and go build -overlay).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(nap), 'not claimed')
