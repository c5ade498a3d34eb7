"""setprop.py ID FIELD TEXT: edit one field of one property."""
import json
import os
import sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
rows = [json.loads(l) for l in open(p)]
for r in rows:
    if r['id'] == sys.argv[1]:
        r[sys.argv[2]] = sys.argv[3]
with open(p, 'w') as f:
    for r in rows:
        f.write(json.dumps(r, ensure_ascii=False) + '\n')
