#!/usr/bin/env python3
"""
Check of one property: python3-vt check.py C01

1. The contracts of the property (contracts/cXX.py) are verified function by
   function against the current sources of the repository (in a process of its
   own, with a time and memory limit).
2. The real code is run on generated inputs against an independent oracle
   (oracles/cXX.py). It serves to find a concrete input for an obligation that
   fails, and as the bounded stand-in for functions out of the verifier's reach.

Verdict: 1 and a VIOLATION line if an obligation fails or the oracle disagrees,
0 otherwise. Functions the verifier cannot read are reported in the evidence as
bounded, never as proved.
"""

import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
PROVER = '/usr/bin/env python3-vt'.split()

# time limits in seconds (proof, oracle run, oracle run when the proof is not complete)
LIMITS = {'quick': (330, 25, 140), 'thorough': (700, 240, 360)}


def run_oracle(prop, tree, seed, seconds, out, only=None):
    cmd = [PY, os.path.join(HERE, 'oracles/run.py'), prop, '--tree', tree, '--seed', str(seed), '--time', str(seconds), '--out', out]
    if only:
        cmd += ['--only', only]
    env = dict(os.environ, PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    return subprocess.Popen(cmd, cwd=tree, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)


def wait(p, seconds):
    try:
        out, _ = p.communicate(timeout=seconds)
        return out or ''
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return None


def crashed(p, text, out):
    """The running code ended the process with a signal, or did not come back: a failure of the case at hand"""
    cur = load(out + '.cur')
    if cur is None or (text is not None and p.returncode not in (-4, -6, -7, -8, -11)):
        return None
    what = 'does not terminate' if text is None else 'the process was ended by signal %d\n%s' % (-p.returncode, (text or '')[-1500:])
    return {'runs': 1, 'distinct': 1, 'failures': [dict(cur, message=what, case='')], 'per_check': {cur['check']: 1}, 'samples': [], 'error': None}


def load(path):
    try:
        return json.load(open(path))
    except (OSError, ValueError):
        return None


def known_findings(prop):
    """Findings listed as known (repaired ones suppress nothing)"""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                # known: property=Cxx check=<name> match=<text> | <what fails>
                head, what = line.split('|', 1)
                d = dict(w.split('=', 1) for w in head.split()[1:])
                out.append((d.get('check'), d.get('match', ''), what.strip()))
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    prop = args[0]
    repo = os.environ.get('REPO', '/repo')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in LIMITS:
        tier = 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    t_proof, t_oracle, t_more = LIMITS[tier]
    has_oracle = os.path.exists(os.path.join(HERE, 'oracles', prop.lower() + '.py'))
    tmp = tempfile.mkdtemp(prefix='vp-check-')
    status = 0
    violations = []
    try:
        if '--replay' in sys.argv:
            from oracles import tree as TR
            tree = os.path.join(tmp, 'tree')
            print('\n'.join(TR.stage(repo, tree)))
            return subprocess.call([PY, os.path.join(HERE, 'oracles/run.py'), prop, '--tree', tree, '--replay', os.path.abspath(args[1])], cwd=tree)
        pout = os.path.join(tmp, 'proof.json')
        proof = subprocess.Popen(PROVER + [os.path.join(HERE, 'vc/child.py'), prop, repo, pout, str(t_proof), tier], cwd=HERE,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        problems = []
        orc = None
        if has_oracle:
            from oracles import tree as TR
            tree = os.path.join(tmp, 'tree')
            problems = TR.stage(repo, tree)
            oout = os.path.join(tmp, 'oracle.json')
            p = run_oracle(prop, tree, seed, t_oracle, oout)
            text = wait(p, t_oracle * 4 + 120)
            orc = load(oout) or crashed(p, text, oout) or {'runs': 0, 'distinct': 0, 'failures': [], 'per_check': {}, 'samples': [],
                                 'error': 'no result: %s' % (text or 'time limit')[-1500:]}
        ptext = wait(proof, t_proof + 60)
        pf = load(pout) or {'functions': [], 'obligations': 0, 'discharged': 0, 'failed': [], 'by_backend': {}, 'names': {},
                            'unsupported': [['(run)', 'no result: %s' % (ptext or 'time or memory limit')[-800:]]],
                            'solver_time_s': 0, 'models': [], 'assumed': [], 'inlined': [], 'contracts_used': [], 'wall_s': 0}
        complete = not pf['failed'] and not pf['unsupported']
        # a larger search for a failing input when an obligation failed, or as
        # stand-in for what is out of reach
        if has_oracle and not complete and not orc['failures'] and not orc['error']:
            oout2 = os.path.join(tmp, 'oracle2.json')
            p = run_oracle(prop, tree, seed + 1000, t_more, oout2)
            wait(p, t_more * 3 + 120)
            more = load(oout2) or crashed(p, '', oout2)
            if more:
                orc['runs'] += more['runs']
                orc['distinct'] += more['distinct']
                orc['failures'] += more['failures']
                for k, v in more['per_check'].items():
                    orc['per_check'][k] = orc['per_check'].get(k, 0) + v
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        rep = os.path.join(HERE, 'replays', '%s.json' % prop)
        if os.path.exists(rep):
            os.remove(rep)
        failures = []
        known = known_findings(prop)
        for f in (orc['failures'] if orc else []):
            for check, match, what in known:
                if f['check'] == check and match in f['message']:
                    print('KNOWN-FINDING: property=%s %s' % (prop, what))
                    break
            else:
                failures.append(f)
        for check, match, what in known:
            if check is None:
                print('KNOWN-FINDING: property=%s %s' % (prop, what))
        if failures or pf['failed']:
            status = 1
            data = {'property': prop, 'seed': seed, 'tier': tier}
            if failures:
                data.update(failures[0])
                data['all_failures'] = failures
                data['how_to_replay'] = 'python3-vt /verif/check.py %s --replay %s' % (prop, rep)
            data['failed_obligations'] = [{k: o[k] for k in ('function', 'name', 'status', 'detail')} for o in pf['failed'][:20]]
            json.dump(data, open(rep, 'w'), indent=1)
            for o in pf['failed'][:10]:
                print('failed obligation: %s: %s' % (o['function'], o['name']))
                print('   ' + o['detail'][:600].replace('\n', '\n   '))
            for f in failures[:5]:
                print('failing input: %s %s\n   %s' % (f['check'], f.get('params'), f['message'][:800]))
            violations = [f['check'] for f in failures] or [o['name'] for o in pf['failed']]
            print('VIOLATION property=%s replay=%s%s' % (prop, rep, '' if failures else ' no-failing-input-found'))
        level = 'proof' if complete and pf['obligations'] else 'exploration'
        coverage = {
            'obligations': pf['obligations'], 'discharged': pf['discharged'],
            'checker_cmd': 'python3-vt /verif/check.py %s (verifier: /verif/vc, contracts: /verif/contracts/%s.py)' % (prop, prop.lower()),
            'trusted_base': ['verifier /verif/vc (symbolic execution of the sources and algebra of finite sums)',
                             'z3 (python z3-solver), cvc5 1.1.2'] + ['library model: ' + m for m in pf['models']],
            'functions_under_contract': pf['functions'], 'inlined_helpers': pf['inlined'],
            'callee_contracts_used': pf['contracts_used'],
            'by_backend': pf['by_backend'], 'solver_time_s': pf['solver_time_s'], 'proof_wall_s': pf['wall_s'],
            'obligations_by_function': {k: len(v) for k, v in pf['names'].items()},
            'failed': [{'function': o['function'], 'name': o['name']} for o in pf['failed']],
            'out_of_reach': [{'function': u[0], 'reason': u[1][:400]} for u in pf['unsupported']],
            'bounded': None,
        }
        if orc:
            from importlib import import_module
            coverage['evaluations'] = orc['runs']
            coverage['distinct_nontrivial'] = orc['distinct']
            coverage['rule'] = ('random trajectories and arguments drawn from the seed; each case is compared with an independent '
                                'computation of the property; distinct seeds count as distinct')
            coverage['samples'] = orc['samples'] or [{'none': True}]
            coverage['bounded'] = {'what': 'concrete companion (bounded, not counted as proved)', 'cases_per_check': orc['per_check'],
                                   'wall_s': orc.get('wall_s'), 'error': orc['error'], 'build_problems': problems}
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
              'assumptions': ['floating-point numbers are treated as reals and integers as unbounded',
                              'denominators met on a path are assumed non-zero unless a contract says otherwise']
              + list(pf['assumed']),
              'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
        print('%s: %d obligations, %d discharged %s in %.1f s (proof), %d out of reach; %d concrete cases; %.1f s' % (
            prop, pf['obligations'], pf['discharged'], pf['by_backend'], pf['wall_s'], len(pf['unsupported']),
            orc['runs'] if orc else 0, time.time() - t0))
        for u in pf['unsupported']:
            print('   out of reach (bounded stand-in): %s: %s' % (u[0], u[1][:300].replace('\n', ' ')))
        if orc and orc['error']:
            print('oracle error: ' + orc['error'])
            if not status:
                status = 2
        if problems and not status:
            print('\n'.join(problems)[:2000])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return status


if __name__ == '__main__':
    sys.exit(main())
