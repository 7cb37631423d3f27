#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed-results.txt (id, checks that caught it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = dict(l.strip().split(' ', 1) for l in open(os.path.join(V, 'tools', 'seed-results.txt')) if l.strip())
rows = ['| id | breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['what_it_breaks'], m['needs'], res.get(d, 'not run')))
p = os.path.join(V, 'DESIGN.md'); s = open(p).read()
a = s.index('<!-- seeds -->'); b = s.index('<!-- /seeds -->')
open(p, 'w').write(s[:a] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n' + s[b:])
