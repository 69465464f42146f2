#!/usr/bin/python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(root + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (root, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
text = open(root + '/DESIGN.md').read()
head = text.split('<!-- seeds -->')[0]
open(root + '/DESIGN.md', 'w').write(head + '<!-- seeds -->\n\n| change | check which catches it | needs | what it breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
print(len(rows))
