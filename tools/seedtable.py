#!/opt/venv/bin/python
"""Prints the table of planted bugs for DESIGN.md (not used by any check)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'c01-late-thread-inherits-position': 'no: C01 now removes, replaces and restores the file',
    'c07-parent-grows': 'no: C07 now compares the enclosing elements again after the damage was read',
    'c09-caller-header-merged': "no: C09 data may hold the caller's own header",
    'c12-exclude-updated': 'no: C12 passes sets and checks them',
    'c16-one-bad-file-hides-rest': 'no: C16 no longer excuses a listing for a failing look at one file',
}
try:
    with open(os.path.join(HERE, 'tools', 'seednotes.json')) as f:
        NOTES.update(json.load(f))
except FileNotFoundError:
    pass
print('| planted bug | needs | caught by, first |')
print('|---|---|---|')
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    with open(os.path.join(HERE, 'seeded', d, 'meta.json')) as f:
        m = json.load(f)
    print('| %s | %s | %s, %s |' % (d, m['needs'], m['property'], NOTES.get(d, 'yes')))
