"""mkbug(id, prop, file, [(old, new), ...], demo, needs, breaks): writes seeded/<id>/ (developer tool)."""
import json
import os
import subprocess
import tempfile


def mkbug(bid, prop, file, edits, demo, needs, breaks):
    d = '/verif/seeded/' + bid
    os.makedirs(d, exist_ok=True)
    files = file if isinstance(file, list) else [file] * len(edits)
    with tempfile.TemporaryDirectory() as t:
        subprocess.check_call('git -C /repo archive HEAD | tar x -C ' + t, shell=True)
        subprocess.check_call('git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x', shell=True, cwd=t)
        for f, (old, new) in zip(files, edits):
            p = os.path.join(t, f)
            s = open(p, newline='').read()
            assert s.count(old) == 1, (bid, f, s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.check_output('git diff', shell=True, cwd=t).decode()
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write('import sys\nsys.path.insert(0, "/repo")\nsys.dont_write_bytecode = True\n' + demo.strip() + '\nprint("ok")\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
