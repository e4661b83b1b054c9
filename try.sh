#!/bin/bash
# try.sh <bug id> [check ids]: runs checks against a planted bug in a scratch copy of /repo
S=/verif/seeded/$1; shift
W=$(mktemp -d /tmp/try.XXXXXX)
git -C /repo archive HEAD | tar x -C $W
(cd $W && git init -q . && git apply $S/patch.diff) || echo NOAPPLY
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
for c in $P; do echo "== $(basename $S) vs $c"; VERIF_REPO=$W timeout 900 python3-vt check.py $c 2>/dev/null | grep -E 'FAILED|VIOLATION|holds|failing input' | cut -c1-260; done
rm -rf $W
