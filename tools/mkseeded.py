"""Rewrite the table of the planted bugs in DESIGN.md."""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    d = os.path.join(HERE, 'seeded', i)
    with open(os.path.join(d, 'meta.json')) as h:
        m = json.load(h)
    with open(os.path.join(d, 'patch.diff')) as h:
        f = re.findall(r'^\+\+\+ b/(?:src/pydsm/)?(\S+)', h.read(), re.M)
    rows.append('* `%s` (caught by %s; %s): %s; needs %s.' % (
        i, m['property'], ', '.join(f),
        ' '.join(m['what_it_breaks'].split()).rstrip('.'),
        ' '.join(m['needs'].split()).rstrip('.')))
p = os.path.join(HERE, 'DESIGN.md')
with open(p) as h:
    s = h.read()
s = re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)',
           lambda k: k.group(1) + '\n'.join(rows) + '\n' + k.group(2), s,
           flags=re.S)
with open(p, 'w') as h:
    h.write(s)
