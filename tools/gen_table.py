#!/usr/bin/env python3
"""Prints the table of section 6 of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| planted bug | what it breaks | needs | caught by |\n|---|---|---|---|')
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, 'meta.json')))
    c = lambda s: ' '.join(str(s).split()).replace('|', '/')
    print(f"| {d} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {c(m.get('caught_by', m['property']))} |")
