"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what the check that now catches the bug lacked when the bug was first tried
MISSED = json.load(open(os.path.join(ROOT, 'tools', 'missed.json')))

path = os.path.join(ROOT, 'DESIGN.md')
text = open(path).read()
head = text[:text.index('## Planted bugs')]
rows = []
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', 'b*'))):
    b, m = os.path.basename(d), json.load(open(os.path.join(d, 'meta.json')))
    rows.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'], m['needs'], MISSED.get(b, '')))
text = head + '''## Planted bugs

Each bug below is reported by the check of the property it names. The last column says what was added to the
check when the bug was first planted and went unnoticed; an empty one means it was noticed at once.

| bug | caught by | what it breaks | what it needs | added to the check |
|-----|-----------|----------------|---------------|--------------------|
''' + '\n'.join(rows) + '\n'
open(path, 'w').write(text)
print(len(rows), 'planted bugs')
