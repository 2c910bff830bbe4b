"""Fills the table of planted bugs in DESIGN.md (run by hand after planting)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
head = '|---|---|---|\n'
i = s.index(head, s.index('| planted bug |')) + len(head)
j = s.find('\n\n', i)
open(p, 'w').write(s[:i] + '\n'.join(rows) + (s[j:] if j >= 0 else '\n'))
