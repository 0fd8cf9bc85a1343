"""writes properties.jsonl and MANIFEST.json from tools/props_data.py and specs/registry.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools')]
from props_data import P
from specs.registry import CHECKS, NOT_CLAIMED
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        fs = []
        for x in p['anchors']['files']:
            if not os.path.exists('/repo/' + x):
                print('missing anchor', p['id'], x)
            else:
                fs.append(x)
        p['anchors']['files'] = fs
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
ids = [p['id'] for p in P]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({'property': i, 'quick_cmd': './check.py %s --tier quick' % i, 'thorough_cmd': './check.py %s --tier thorough' % i,
                       'technique': c.get('technique', 'contracts on the extracted C++ functions, obligations discharged by z3/cvc5; bounded ASan harness for replay'),
                       'level': c.get('level', 'proof'), 'level_note': c['note'], 'evidence_file': 'evidence/%s.json' % i})
    else:
        na.append({'property': i, 'reason': NOT_CLAIMED.get(i, 'not claimed yet: contracts for it are not finished')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Contract-based deductive verification of the C++ extracted by clang from the current sources (tools/xtract), VC generation in dv/, z3/cvc5 discharge. No hooks in /repo. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

def cell(t):
    return ' '.join(t.split()).replace('|', '\\|')
rows = ['| id | property | contracts (`specs/`) | bounded driver | level | what is proved, over what, outside what |', '|---|---|---|---|---|---|']
for p in P:
    c = CHECKS.get(p['id'])
    if c:
        rows.append('| %s | %s | %s | `%s`%s | %s | %s |' % (p['id'], cell(p['title']), ', '.join(c['specs']), c['harness'], ' (%s)' % c['parts'] if c.get('parts') else '', c.get('level', 'proof'), cell(c['note'])))
    else:
        rows.append('| %s | %s | | | not applicable | %s |' % (p['id'], cell(p['title']), cell(NOT_CLAIMED.get(p['id'], 'not claimed'))))
seeds = ['| planted bug | property | needs | breaks |', '|---|---|---|---|']
SD = os.path.join(HERE, 'seeded')
if os.path.isdir(SD):
    for d in sorted(os.listdir(SD)):
        j = json.load(open(os.path.join(SD, d, 'meta.json')))
        seeds.append('| %s | %s | %s | %s |' % (d, j['property'], cell(j['needs']), cell(j['what_it_breaks'])))
    t = open(os.path.join(HERE, 'tools', 'DESIGN.in.md')).read()
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t.replace('PROPTABLE', '\n'.join(rows)).replace('SEEDTABLE', '\n'.join(seeds)))
