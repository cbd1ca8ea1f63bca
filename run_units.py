import sys, importlib, json
sys.path.insert(0, '/verif')
from pyded.verify import REG, run_unit
prop = sys.argv[1]
importlib.import_module('contracts.' + prop)
for u in REG[prop]:
    if [a for a in sys.argv[2:] if a != '-v'] and not any(a in u.name for a in sys.argv[2:] if a != '-v'):
        continue
    r = run_unit(u, trace=2 if '-vv' in sys.argv else '-v' in sys.argv)
    print(u.name, r['status'], r['error'], 'obl', len(r['obligations']), 'wall', r['wall_s'], 'paths', r['return_paths'], r['raise_paths'])
    for o in r['obligations']:
        if o['status'] != 'proved':
            print('   ', o['status'], o['name'], 'line', o['line'], o['func'], '\n', o['detail'][:1500])
