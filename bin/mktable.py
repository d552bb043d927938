#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(HERE, 'DESIGN.md')
s = open(f).read()
head, mark, _ = s.partition('|---|---|---|\n')
rows = []
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json')) + glob.glob(os.path.join(HERE, 'extra_bugs', '*', 'meta.json'))):
    d = json.load(open(m))
    rows.append('| %s | %s | %s |\n' % (m.split('/')[-2], d.get('caught_by', d['property']), re.sub(r'\s+', ' ', d['what_it_breaks']).split('. ')[0][:150].replace('|', '/')))
open(f, 'w').write(head + mark + ''.join(rows))
