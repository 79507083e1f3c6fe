"""Development: update the table of planted bugs in DESIGN.md."""
import json
import os
import re

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = []
for s in sorted(os.listdir('seeded'), key=lambda s: ('SFDV'.index(s[0]), s)):
    with open(f'seeded/{s}/meta.json') as f:
        needs = json.load(f)['needs'].replace('\n', ' ').replace('|', '/')
    rows.append(f'| {s} | {needs[:160]} |')
table = '\n'.join(['<!-- table -->',
                   '| bug (the property it breaks is in its name) | needs |', '|---|---|',
                   *rows, '<!-- end of table -->'])
with open('DESIGN.md') as f:
    text = f.read()
text = re.sub('<!-- table -->.*<!-- end of table -->', lambda mo: table, text, flags=re.S)
with open('DESIGN.md', 'w') as f:
    f.write(text)
