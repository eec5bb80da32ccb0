#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, filling in the planted-bug table."""
import glob, json, os, textwrap
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(m))
    by.setdefault(d['property'], []).append(os.path.basename(os.path.dirname(m)))
total = sum(map(len, by.values()))
out = [f'{total} planted bugs; per property (the check of that property catches each):', '']
for p in sorted(by):
    out.append(textwrap.fill(f'* **{p}** ({len(by[p])}): ' + ', '.join(x.removeprefix(p + '-') for x in by[p]), 80, subsequent_indent='  ', break_on_hyphens=False))
t = open(root + '/tools/design.md').read().replace('@MATRIX@', '\n'.join(out))
open(root + '/DESIGN.md', 'w').write(t)
