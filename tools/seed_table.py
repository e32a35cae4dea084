#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.txt (name: checks)"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = R + '/tools/caught.txt'
if os.path.exists(p):
    for l in open(p):
        n, _, c = l.partition(':')
        caught[n.strip()] = c.split()
rows = ['| planted bug | what it breaks | needs | caught by |', '|---|---|---|---|']
for n in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, n)))
    rows.append('| %s | %s | %s | %s |' % (n, m['what_it_breaks'], m['needs'], ', '.join(caught.get(n, ['?']))))
d = open(R + '/DESIGN.md').read()
a = d.index('<!-- seeds -->')
b = d.find('<!-- /seeds -->')
tail = d[b + len('<!-- /seeds -->'):] if b >= 0 else '\n'
open(R + '/DESIGN.md', 'w').write(d[:a] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->' + tail)
print(len(rows) - 2, 'rows')
