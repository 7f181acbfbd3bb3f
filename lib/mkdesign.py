#!/usr/bin/env python3
"""Regenerates DESIGN.md from the text below, properties.jsonl, lib/registry.py, known_findings.jsonl and lib/designnotes.py
(the seeded-bug table is taken from lib/designnotes.py, not from seeded/)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
from registry import CLAIMS
import designnotes as D
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
kf = [json.loads(l) for l in open(V + '/known_findings.jsonl') if l.strip()]
out = [D.HEAD]
out.append('\n## 3. Properties and how each is decided\n')
for p in props:
    i = p['id']
    out.append('### %s - %s\n' % (i, p['title']))
    if i in CLAIMS:
        lv, te, no = CLAIMS[i]
        out.append('*Level:* %s. *Technique:* %s.\n' % (lv, te))
        out.append(D.NOTES.get(i, '').strip() + '\n')
        out.append('*Limits:* ' + no + '\n')
    else:
        out.append('*Not claimed:* ' + D.NA.get(i, 'no check was built in the time available; the family applies in principle (bounded exhaustive enumeration on the real code).') + '\n')
out.append('\n## 4. Genuine defects found\n\nEvery entry was reproduced on the real code before being repaired; each repair is one `fix:` commit in /repo. '
           'Entries marked **open** are recorded in `known_findings.jsonl` and printed as KNOWN-FINDING (they do not fail the check; any other violation does).\n')
for k in kf:
    if k['status'] == 'open':
        out.append('* **open** %s, case `%s`: %s' % (k['property'], k['case'], k['what']))
for k in kf:
    if k['status'] != 'open':
        out.append('* %s (%s)' % (k['what'].replace('fixed: property=', ''), 'repaired'))
out.append(D.TAIL)
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
