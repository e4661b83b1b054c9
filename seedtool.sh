#!/bin/bash
# seedtool.sh <id>: checks a planted bug in a scratch copy: builds, stable tests pass, demo 0 without / non-zero with it
set -u
S=/verif/seeded/$1
W=$(mktemp -d /tmp/seed.XXXXXX)
git -C /repo worktree list >/dev/null
cp -a /repo "$W/repo"
mkdir "$W/demo"; cp "$S"/* "$W/demo/"; rm -f "$W/demo"/*.diff "$W/demo/meta.json"
cd "$W/repo"
# the demo and the tests name /repo: run them in a mount namespace where it is the copy
run() { unshare -Urm bash -c "mount --bind $W/repo /repo && cd /repo && $1"; }
run "timeout 300 bash $W/demo/demo.sh" >"$W/o1" 2>&1; a=$?
git apply "$S/patch.diff" || { echo "$1: patch does not apply"; exit 1; }
run "bash /opt/vp/build.sh" >"$W/ob" 2>&1; b=$?
run "bash /opt/vp/test.sh $W/res.json" >"$W/ot" 2>&1
run "timeout 300 bash $W/demo/demo.sh" >"$W/o2" 2>&1; c=$?
python3 - "$W/res.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','stable','stable_pass','tests'):
        if k in x:
            v=x[k]
            return set(v) if isinstance(v,list) else {n for n,s in v.items() if s in ('passed','pass',True)}
    raise SystemExit('keys %s'%list(x))
miss=names(b)-names(r)
print('stable tests:', 'ok' if not miss else 'BROKEN %s'%sorted(miss)[:5])
P
echo "$1: demo clean=$a (want 0), build=$b (want 0), demo patched=$c (want non-zero)"
[ $a = 0 ] || tail -5 "$W/o1"
[ $c != 0 ] || tail -5 "$W/o2"
rm -rf "$W"
