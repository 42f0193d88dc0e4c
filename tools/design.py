#!/usr/bin/env python3
"""Compose DESIGN.md from tools/design_text.md, the claims and the descriptions of the checks."""
import ast, glob, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from claims import CLAIMS, NA
import json
root = os.path.dirname(here)
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
out = []
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    f = '%s/prv/checks/%s.py' % (root, i.lower())
    if i in CLAIMS:
        doc = ast.get_docstring(ast.parse(open(f).read())) or ''
        out.append(doc + '\n')
        out.append('*Technique:* %s.  *Level:* %s.\n*Bounds and trust:* %s\n' % CLAIMS[i])
    else:
        out.append('Not applicable: %s\n' % NA.get(i, ''))
text = open(here + '/design_text.md').read().replace('@@PROPERTIES@@', '\n'.join(out))
rows = ['| change | property | needs |', '|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (d.split('/')[-2], m['property'], m['needs'].replace('|', '/')))
text = text.replace('@@SEEDS@@', '\n'.join(rows))
open(root + '/DESIGN.md', 'w').write(text)
