"""
Concrete companion of a check: runs the real code (a scratch copy of the
package, first in sys.path) on generated inputs and compares it with an
independent oracle.

run.py <property> --tree DIR --seed N --time S --out FILE
run.py <property> --tree DIR --replay FILE
"""

import argparse
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Skip(Exception):
    pass


def one(check, params):
    """None, or what is wrong"""
    from oracles import lib
    try:
        return check(params)
    except lib.Skip:
        return None
    except Exception as e:
        return 'raises %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tree', required=True)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--time', type=float, default=20)
    ap.add_argument('--rounds', type=int, default=0, help='stop after this many rounds')
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    a = ap.parse_args()
    sys.path.insert(0, a.tree)
    sys.path.insert(1, HERE)
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    import numpy
    numpy.seterr(all='ignore')
    import logging
    logging.disable(logging.CRITICAL)
    out = {'runs': 0, 'distinct': 0, 'per_check': {}, 'samples': [], 'failures': [], 'error': None, 'skipped': 0}
    t0 = time.time()
    try:
        import atooms.postprocessing
        got = os.path.dirname(os.path.abspath(atooms.postprocessing.__file__))
        if not got.startswith(os.path.abspath(a.tree)):
            raise RuntimeError('wrong package imported: ' + got)
        module_error = None
    except Exception as e:
        module_error = 'importing the package raises %s: %s' % (type(e).__name__, e)
    if module_error:
        out['failures'].append({'check': 'import', 'params': {}, 'message': module_error})
    else:
        mod = importlib.import_module('oracles.' + a.prop.lower())
        checks = [(f.__name__, f) for f in mod.CHECKS]
        if a.only:
            checks = [c for c in checks if c[0] in a.only.split(',')]
        if a.replay:
            r = json.load(open(a.replay))
            for name, f in checks:
                if name == r.get('check'):
                    msg = one(f, r['params'])
                    print(msg or 'holds')
                    sys.exit(1 if msg else 0)
            print('no such check')
            sys.exit(2)
        # what is being run, should the process not survive it
        cur = open(a.out + '.cur', 'w') if a.out else None
        seen = set()
        n = 0
        bad = set()
        while checks and time.time() - t0 < a.time and (not a.rounds or n < a.rounds):
            for name, f in checks:
                if name in bad:
                    continue
                # the case is a function of the seed, the round and the name of the check
                params = {'seed': (a.seed * 1000003 + n * 7919 + sum(map(ord, name)) * 31) % (2**31 - 1), 'round': n}
                if cur:
                    cur.seek(0)
                    cur.write(json.dumps({'check': name, 'params': params}).ljust(200))
                    cur.flush()
                msg = one(f, params)
                out['runs'] += 1
                out['per_check'][name] = out['per_check'].get(name, 0) + 1
                key = (name, params['seed'])
                if key not in seen:
                    seen.add(key)
                    out['distinct'] += 1
                if len(out['samples']) < 6 and n < 2:
                    from oracles import lib
                    out['samples'].append({'check': name, 'params': params, 'case': str(lib.LAST)[:300]})
                if msg:
                    from oracles import lib
                    out['failures'].append({'check': name, 'params': params, 'message': msg[:3000], 'case': str(lib.LAST)[:1000]})
                    bad.add(name)
                if time.time() - t0 > a.time * 1.5:
                    break
            n += 1
            if bad and len(bad) == len(checks):
                break
            if bad and time.time() - t0 > 20:
                break
        out['rounds'] = n
    out['wall_s'] = round(time.time() - t0, 2)
    if a.out:
        json.dump(out, open(a.out, 'w'), indent=1)
    else:
        print(json.dumps(out, indent=1))
    sys.exit(1 if out['failures'] else 0)


if __name__ == '__main__':
    main()
