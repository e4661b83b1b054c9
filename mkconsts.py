"""writes replay/consts.json: the integers of every source file of the tree as it is (developer tool)"""
import ast
import json
import os
out = {}
for d, _, fs in os.walk('/repo'):
    for f in fs:
        p = os.path.join(d, f)
        r = os.path.relpath(p, '/repo')
        if f.endswith('.py') and 'test' not in r:
            try:
                t = ast.parse(open(p, encoding='utf8').read())
            except SyntaxError:
                continue
            out[r] = sorted({n.value for n in ast.walk(t) if isinstance(n, ast.Constant) and type(n.value) is int})
json.dump(out, open('/verif/replay/consts.json', 'w'), indent=0, sort_keys=True)
