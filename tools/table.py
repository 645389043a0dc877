# replaces the table of planted bugs in DESIGN.md
import os, re, subprocess, sys
d = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(d, '..', 'DESIGN.md')
t = subprocess.run([sys.executable, os.path.join(d, 'planted.py')], capture_output=True, text=True, check=True).stdout
s = open(p).read()
i = s.index('| bug | property |')
j = i
for l in s[i:].splitlines(True):
    if not l.startswith('|'):
        break
    j += len(l)
open(p, 'w').write(s[:i] + t + s[j:])
