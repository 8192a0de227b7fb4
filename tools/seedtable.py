#!/usr/bin/env python3
"""Prints the table of planted changes of DESIGN.md from seeded/*/meta.json and tools/caught.json (what trybug.sh found)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + '/tools/caught.json'))
print('| change | property | what it needs | reported by |')
print('|---|---|---|---|')
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    print(f"| {d} | {m['property']} | {m['needs']} | {', '.join(c.get(d, [])) or 'nothing yet'} |")
