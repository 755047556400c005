#!/usr/bin/env python3
"""
Build and validate planted bugs: python3 tools/mkseed.py [--no-tests] ID ...
Each is described by tools/seeds/ID.py: PROPERTY, NEEDS, BREAKS, EDITS
[(file, old, new)], DEMO (body of a program that exits nonzero on the bug).
"""
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
PKG = 'atooms/postprocessing'


def sh(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             NPY_DISABLE_CPU_FEATURES="AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL AVX512_SPR")
    e.update(env)
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    from oracles import tree
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(f[:-3] for f in os.listdir(HERE + '/tools/seeds') if f.endswith('.py') and f != 'traj.py')
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) if False else [])
    ok = True
    for i in ids:
        ns = {}
        exec(open(HERE + '/tools/seeds/%s.py' % i).read(), ns)
        out = HERE + '/seeded/' + i
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        tmp = '/tmp/vpseed-%s-%d' % (i, os.getpid())
        shutil.rmtree(tmp, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', tmp])
        try:
            base = dict((l, None) for l in [])
            for f, old, new in ns['EDITS']:
                p = os.path.join(tmp, f if '/' in f else PKG + '/' + f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(i, 'EDIT matches %d times: %r' % (s.count(old), old))
                    ok = False
                    break
                open(p, 'w').write(s.replace(old, new))
            else:
                d = sh(['git', 'diff'], tmp).stdout
                open(out + '/patch.diff', 'w').write(d)
                # original lines only
                fixed = blame(tmp, d)
                shutil.copy(HERE + '/tools/seeds/traj.py', out)
                open(out + '/demo.py', 'w').write(
                    'import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom traj import *\n' + ns['DEMO'])
                open(out + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                                                  'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                os.chmod(out + '/demo.sh', 0o755)
                json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
                          open(out + '/meta.json', 'w'), indent=1)
                for name in ('realspace', 'fourierspace'):
                    if name + '.f90' in d:
                        suffix = tree._suffix()
                        so, log = tree.build(tmp, name, suffix)
                        if so is None:
                            print(i, 'BUILD FAILS', log)
                            ok = False
                            continue
                        shutil.copy(so, os.path.join(tmp, PKG, name + '_wrap' + suffix))
                a = sh(['bash', out + '/demo.sh'], '/repo', PYTHONPATH='/repo')
                b = sh(['bash', out + '/demo.sh'], tmp, PYTHONPATH=tmp)
                t = ''
                if '--no-tests' not in sys.argv:
                    r = sh([PY, '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--tb=no', '-rf'], tmp, PYTHONPATH=tmp)
                    t = r.stdout.strip().splitlines()
                    t = [x for x in t if x.startswith('FAILED')] + t[-1:]
                good = a.returncode == 0 and b.returncode != 0
                ok = ok and good
                print(i, ns['PROPERTY'], 'OK' if good else 'BAD', 'demo: unchanged %d, patched %d' % (a.returncode, b.returncode), fixed)
                if not good:
                    print(a.stdout[-1500:], b.stdout[-1500:])
                else:
                    print('   ', b.stdout.strip().splitlines()[-1][:150])
                for x in t:
                    print('   ', x[:150])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return 0 if ok else 1


def blame(tmp, diff):
    """Changed lines that are not of the original repository"""
    r = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--reverse'], stdout=subprocess.PIPE, text=True).stdout.split()
    base = r[0]
    out = []
    f, line = None, 0
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        m = re.match(r'@@ -(\d+)', l)
        if m:
            line = int(m.group(1))
            continue
        if l.startswith('-') and not l.startswith('---'):
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-l', '-s', '-L', '%d,%d' % (line, line), f], stdout=subprocess.PIPE, text=True).stdout
            if not b.lstrip('^').startswith(base[:20]):
                out.append('NOT ORIGINAL %s:%d' % (f, line))
            line += 1
        elif l.startswith(' '):
            line += 1
    return ' '.join(out)


sys.exit(main())
