"""writes MANIFEST.json from the properties and the contracts that exist"""
import json, os
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NOTES = json.load(open('/verif/contracts/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('/verif/contracts/%s.py' % i):
        checks.append({'property': i, 'quick_cmd': 'python3 /verif/check.py %s quick' % i, 'thorough_cmd': 'python3 /verif/check.py %s thorough' % i,
                       'technique': 'contract-based deductive verification (pyded: VCs from the real Python source, z3/cvc5) + runtime evaluation of the same contracts as replay',
                       'level': 'proof', 'level_note': NOTES.get(i, '')})
    else:
        na.append({'property': i, 'reason': NOTES.get(i + '-na', 'contracts not written yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'check.py extracts the functions from /repo on every run; see DESIGN.md'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
