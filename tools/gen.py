"""writes properties.jsonl and MANIFEST.json"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'tools'))
from catalog import C, NA
from vf.props import PROPS
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for k in sorted(C):
        c = {x: y for x, y in C[k].items() if x != 'note'}
        assert len(c['title']) <= 80, (k, len(c['title']))
        f.write(json.dumps(c) + '\n')
checks = []
for k in sorted(C):
    if k not in PROPS:
        assert k in NA, k
        continue
    checks.append(dict(property=k, quick_cmd='python3-vt vf/check.py %s quick' % k, thorough_cmd='python3-vt vf/check.py %s thorough' % k,
                       technique='contract-based deductive verification of the real C code (LLVM IR of /repo, function by function, z3/cvc5), failing inputs replayed on the real code',
                       level='proof', level_note=C[k]['note']))
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=[dict(property=k, reason=NA[k]) for k in sorted(NA)],
         notes='No hooks are needed in /repo; contracts live in /verif/vf/specs and are checked against the LLVM IR that clang makes from /repo on every run.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
for l in open(os.path.join(HERE, 'properties.jsonl')): jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
print(len(C), 'properties', len(checks), 'checks')
