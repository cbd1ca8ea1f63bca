#!/usr/bin/env python3-vt
"""writes UNITS.md from the contracts"""
import sys, importlib
sys.path.insert(0, '/verif')
from pyded.verify import REG
out = ['# Units under contract (generated by mkunits.py)\n']
n = 0
for i in range(1, 17):
    p = 'C%02d' % i
    importlib.import_module('contracts.' + p)
    out.append('## %s\n' % p)
    for u in REG.get(p, []):
        n += 1
        out.append('* **%s** — %s  \n  %s' % (u.name, ' '.join(u.doc.split()), ', '.join('`%s`' % t.split('ficus.')[-1] for t in u.targets)))
    out.append('')
open('/verif/UNITS.md', 'w').write('\n'.join(out) + '\n')
print(n)
