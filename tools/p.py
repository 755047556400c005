"""Run the contracts of a property: python3-vt tools/p.py C01 [function ...]"""
import sys, time, importlib
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from vc.prove import Prover, short
v = '-v' in sys.argv
args = [a for a in sys.argv[1:] if a != '-v']
def log(o):
    if isinstance(o, str):
        print('\n'.join(x[:300] for x in o.splitlines()[-14:])); return
    if v or o.status != 'discharged':
        print('%-10s %-8s %6.2fs %s: %s' % (o.status, o.backend, o.time, o.function, o.name))
        if o.status != 'discharged': print('\n'.join('   '+x[:W] for x in o.detail.splitlines()[:6]))
import os
W = int(os.environ.get('W', '500'))
pr = Prover(os.environ.get('REPO', '/repo'), log=log)
pr.only = set(args[1:]) or None
t = time.time()
importlib.import_module('contracts.' + args[0].lower()).prove(pr)
s = pr.summary()
for k in ('failed', 'assumed'): s.pop(k)
print(s, '%.1fs' % (time.time() - t))
