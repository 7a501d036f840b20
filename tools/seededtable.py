"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(open(os.path.join(HERE, 'tools', 'missed.txt')).read().split())
p = os.path.join(HERE, 'DESIGN.md')
head = open(p).read().split('| Bug | What it needs |')[0]
rows = ['| Bug | What it needs | Missed at first |', '|---|---|---|']
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    rows.append('| %s (%s) | %s | %s |' % (i, d['property'], d['needs'], 'yes' if i in MISSED else ''))
open(p, 'w').write(head + '\n'.join(rows) + '\n')
