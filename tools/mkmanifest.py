"""python3 tools/mkmanifest.py > MANIFEST.json   (claims every property in specs.py except those in NOT)"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from specs import SPECS
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NOT = json.load(open(os.path.join(H, 'tools', 'not_claimed.json')))
DEF = 'online and offline monitors over executions of the real code, with address and undefined-behaviour sanitizers'
checks = []
for p in props:
    i = p['id']
    if i in NOT:
        continue
    s = SPECS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=s.get('technique', DEF), level='exploration',
                       level_note=s.get('note', 'Holds on every execution generated for the seed; the oracle is independent of the code under test. Trusts the oracle, the model, the tlx stand-ins in shim/ and the compiler.')))
json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in sorted(NOT.items())],
               notes='No hooks in /repo: the harnesses include the headers of /repo directly.'), sys.stdout, indent=1)
print()
