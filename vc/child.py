"""Run the contracts of one property in a process of its own: child.py Cxx repo out.json seconds tier"""

import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


class Budget(BaseException):
    pass


def main():
    prop, repo, out, seconds, tier = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), sys.argv[5]
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    sys.setrecursionlimit(20000)

    def stop(*a):
        raise Budget()
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    from vc.prove import Prover
    pr = Prover(repo, tier)
    pr.proof_tier = tier
    t0 = time.time()
    stopped = None
    try:
        importlib.import_module('contracts.' + prop.lower()).prove(pr)
    except Budget:
        stopped = 'time limit of %d s' % seconds
    except MemoryError:
        stopped = 'memory limit'
    except Exception:
        stopped = 'engine: ' + traceback.format_exc()[-1500:]
    signal.alarm(0)
    if stopped:
        pr.unsupported.append(('(run)', stopped))
    s = pr.summary()
    s['wall_s'] = round(time.time() - t0, 2)
    names = {}
    for o in pr.obls:
        names.setdefault(o.function, []).append((o.name, o.status, o.backend))
    s['names'] = names
    json.dump(s, open(out, 'w'), indent=1)


if __name__ == '__main__':
    main()
