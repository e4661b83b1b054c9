#!/bin/bash
# tryall.sh [bugs]: runs every planted bug against the check of its property, writes bugresults.json (developer tool)
cd /verif
B=${*:-$(ls seeded)}
T=$(mktemp -d /tmp/tryall.XXXXXX)
echo $B | tr ' ' '\n' | xargs -P 3 -I{} sh -c "bash try.sh {} > $T/{} 2>&1"
python3 - $T <<'P'
import json, os, sys
p = '/verif/bugresults.json'
r = json.load(open(p)) if os.path.exists(p) else {}
for b in sorted(os.listdir(sys.argv[1])):
    t = open(os.path.join(sys.argv[1], b)).read()
    v = [l for l in t.split('\n') if l.startswith('VIOLATION')]
    f = sum(l.startswith('FAILED') for l in t.split('\n'))
    if 'NOAPPLY' in t:
        r[b] = 'does not apply'
    elif not v:
        r[b] = 'MISSED' if 'holds' in t else 'no answer'
    elif 'no-failing-input-found' in v[0]:
        r[b] = 'failed obligation only'
    else:
        r[b] = 'failing input' + (' and failed obligation' if f else '')
r = {b: x for b, x in r.items() if os.path.isdir('/verif/seeded/' + b)}
json.dump(r, open(p, 'w'), indent=0, sort_keys=True)
for b in sorted(r):
    if not r[b].startswith('failing'):
        print(b, r[b])
P
rm -rf $T
