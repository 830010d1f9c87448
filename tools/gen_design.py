#!/usr/bin/env python3
"""DESIGN.md from design_template.md, known-findings.txt and the planted bugs."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
text = open(f'{here}/design_template.md').read()
rows = {}
for l in open(f'{root}/known-findings.txt'):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m:
        rows.setdefault(m[2], []).append((m[1], m[3]))
fixed = ['| commit | property | what failed |', '|---|---|---|']
for c, v in rows.items():
    for p, w in v:
        fixed.append(f'| {c} | {p} | {w} |')
seeds = ['| id | property | what it breaks | needs |', '|---|---|---|---|']
metas = []
for f in glob.glob(f'{root}/seeded/*/meta.json'):
    m = json.load(open(f))
    metas.append((m['property'], os.path.basename(os.path.dirname(f)), m))
for p, i, m in sorted(metas, key=lambda x: (x[0], x[1])):
    one = lambda s: ' '.join(s.replace('|', '/').split())
    seeds.append(f"| {i} | {p} | {one(m['what_it_breaks'])} | {one(m['needs'])} |")
text = text.replace('@@FIXED@@', '\n'.join(fixed)).replace('@@SEEDS@@', '\n'.join(seeds)).replace('@@NSEED@@', str(len(metas)))
assert '@@' not in text, re.findall('@@.*', text)
open(f'{root}/DESIGN.md', 'w').write(text)
