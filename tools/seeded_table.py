#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(open(root + '/tools/first_missed.txt').read().split())
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {'first missed' if d in MISSED else ''} |")
p = root + '/DESIGN.md'
s = open(p).read()
a = s.index('| change | needs | breaks | |')
b = s.index('\n\n', a)
s = s[:a] + '| change | needs | breaks | |\n|---|---|---|---|\n' + '\n'.join(rows) + s[b:]
open(p, 'w').write(s)
