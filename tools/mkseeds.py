#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob('/verif/seeded/*/meta.json'):
    d = json.load(open(f)); rows.append('| %s %s | %s |' % (d['property'], os.path.basename(os.path.dirname(f)), d['needs']))
p = os.path.join(root, 'DESIGN.md'); s = open(p).read()
s = re.sub(r'(\|------\|-+\|\n)((?:\|.*\n)*)', lambda m: m.group(1) + '\n'.join(sorted(rows)) + '\n', s)
open(p, 'w').write(s)
