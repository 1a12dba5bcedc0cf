#!/usr/bin/env python3
"""Fills tools/design.in.md with the lists kept elsewhere and writes DESIGN.md."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(root + '/tools/design.in.md').read()
fixed = []
for l in open(root + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fixed.append(f'* **{m[1]}** `{m[2][:7]}` {m[3].strip()}')
plants = ['| planted bug | property whose check catches it | needs |', '|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    plants.append(f"| `{os.path.basename(os.path.dirname(d))}` | {m['property']} | {m['needs']} |")
mut = root + '/tools/mutation.md'
mut = open(mut).read() if os.path.exists(mut) else ''
t = t.replace('@FIXED@', '\n'.join(fixed)).replace('@PLANTS@', '\n'.join(plants)).replace('@MUTATION@', mut)
open(root + '/DESIGN.md', 'w').write(t)
