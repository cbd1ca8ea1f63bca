"""run one unit: python3-vt unit_worker.py <prop> <unit> <out.json> [tier]"""
import sys, importlib, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from pyded.verify import REG, run_unit
prop, name, out = sys.argv[1:4]
tier = sys.argv[4] if len(sys.argv) > 4 else 'quick'
importlib.import_module('contracts.' + prop)
for u in REG[prop]:
    if u.name == name:
        r = run_unit(u, budget=u.budget * (3 if tier == 'thorough' else 1))
        with open(out, 'w') as f:
            json.dump(r, f)
