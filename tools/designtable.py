#!/opt/venv/bin/python
"""Refreshes the table of planted bugs in DESIGN.md (not used by any check)."""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, 'DESIGN.md')
with open(p) as f:
    lines = f.read().split('\n')
a = lines.index('| planted bug | needs | caught by, first |')
b = a
while lines[b].startswith('|'):
    b += 1
t = subprocess.run([sys.executable, os.path.join(HERE, 'tools', 'seedtable.py')],
                   stdout=subprocess.PIPE, text=True, check=True).stdout.rstrip('\n')
lines[a:b] = t.split('\n')
with open(p, 'w') as f:
    f.write('\n'.join(lines))
