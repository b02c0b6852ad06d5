"""Prints the table of planted changes for DESIGN.md."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(HERE, 'seeded')
print('| change | property | needs |\n|---|---|---|')
rows = []
for k in os.listdir(d):
    m = json.load(open(os.path.join(d, k, 'meta.json')))
    rows.append((m['property'], k, m['needs']))
for p, k, n in sorted(rows):
    print('| %s | %s | %s |' % (k, p, n))
