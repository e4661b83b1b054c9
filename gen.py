"""Writes properties.jsonl and MANIFEST.json from props/."""
import json
import sys
sys.path.insert(0, '/verif')
from props.text import T
from props import registry

NA = getattr(__import__('props.table', fromlist=['NA']), 'NA', {})
ps = registry.all_props()
with open('/verif/properties.jsonl', 'w') as f:
    for k in sorted(T):
        f.write(json.dumps(T[k]) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for k in sorted(T):
    if k in ps:
        p = ps[k]
        assert p.title == T[k]['title'], k
        c = {'property': k, 'quick_cmd': 'VERIF_TIER=quick python3-vt check.py ' + k, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + k,
             'evidence_file': 'evidence/%s.json' % k, 'technique': p.technique, 'level': p.level, 'level_note': p.note}
        if p.level == 'proof':
            c['theorems'] = [x.name for x in p.contracts]
        m['checks'].append(c)
    else:
        m['not_applicable'].append({'property': k, 'reason': NA.get(k, 'not built yet')})
with open('/verif/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
for k in T:
    jsonschema.validate(T[k], json.load(open('/root/.vp/PROPERTIES.schema.json')))
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')

out = ['| property | level | under contract (all obligations discharged) | bounded (executed contract) | assumptions |', '|---|---|---|---|---|']
for k in sorted(T):
    if k in ps:
        p = ps[k]
        cs = ', '.join('`%s`' % x.name for x in p.contracts) or '-'
        out.append('| %s %s | %s | %s | %s | %s |' % (k, T[k]['title'], p.level, cs, '; '.join(p.bounded) or '-', '; '.join(p.assumptions) or '-'))


def fill(s, mark, lines):
    a, b = '<!-- %s -->\n' % mark, '<!-- end %s -->' % mark
    return s[:s.index(a) + len(a)] + '\n'.join(lines) + '\n' + s[s.index(b):]


d = open('/verif/DESIGN.md').read()
d = fill(d, 'status', out)
import os
bugs = ['| bug | property | needs | reported as |', '|---|---|---|---|']
res = json.load(open('/verif/bugresults.json')) if os.path.exists('/verif/bugresults.json') else {}
for b in sorted(os.listdir('/verif/seeded')) if os.path.isdir('/verif/seeded') else []:
    if os.path.exists('/verif/seeded/%s/meta.json' % b):
        m2 = json.load(open('/verif/seeded/%s/meta.json' % b))
        bugs.append('| %s | %s | %s | %s |' % (b, m2['property'], m2['needs'], res.get(b, 'not tried')))
d = fill(d, 'bugs', bugs)
open('/verif/DESIGN.md', 'w').write(d)
