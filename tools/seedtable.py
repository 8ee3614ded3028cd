#!/usr/bin/env python3
"""Prints the table of planted bugs of DESIGN.md from seeded/*/meta.json (tools/seedtable.py [first-missed ids...])."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(os.path.join(root, 'tools', 'first_missed.txt')).read().split())
print('| planted bug | property | needs | first |\n|---|---|---|---|')
rows = []
for i in os.listdir(os.path.join(root, 'seeded')):
    m = json.load(open(os.path.join(root, 'seeded', i, 'meta.json')))
    rows.append((m['property'], i, m['needs'].replace('|', '\\|').replace('\n', ' ').rstrip('.')))
for p, i, n in sorted(rows):
    print(f'| {i} | {p} | {n} | {"missed" if i in missed else "caught"} |')
