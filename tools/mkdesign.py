"""Insert table of planted bugs into DESIGN.md (between the markers)."""

import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | what it breaks | needs |', '|---|---|---|---|']
for name in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
    with open(os.path.join(VERIF, 'seeded', name, 'meta.json')) as f:
        d = json.load(f)
    rows.append('| %s | %s | %s | %s |' % (name, d['property'],
        d['what_it_breaks'].rstrip('.'), d['needs']))
path = os.path.join(VERIF, 'DESIGN.md')
with open(path) as f:
    text = f.read()
text = re.sub(r'(<!-- planted -->\n).*?(<!-- /planted -->)', lambda m:
    m.group(1) + '\n'.join(rows) + '\n' + m.group(2), text, flags=re.S)
with open(path, 'w') as f:
    f.write(text)
print(len(rows) - 2, 'planted bugs')
