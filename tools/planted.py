# prints the table of planted bugs for DESIGN.md
import json, os
d = os.path.join(os.path.dirname(__file__), '..', 'seeded')
print('| bug | property | what it needs |\n|---|---|---|')
for n in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, n, 'meta.json')))
    print('| %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '\\|')))
