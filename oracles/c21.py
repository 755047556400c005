"""C21: spectral density"""

import math
import os
import numpy as np
from .lib import *


def check_values(params):
    import atooms.postprocessing as pp
    from atooms.trajectory import TrajectoryXYZ
    from atooms.postprocessing.helpers import filter_species
    r = rng(params)
    D = Data(r, d=3, species=('A',), nmin=5)
    # radii changing in time
    for f in range(D.F):
        D.rad[f] = r.uniform(0.2, 0.9, D.n[f])
        for i, p in enumerate(D.th._system[f].particle):
            p.radius = float(D.rad[f][i])
    no = [None, -1, 2, 1, 0.5][r.randint(5)]
    k0 = 2 * math.pi / D.side[0]
    kg = sorted(float(x) for x in r.uniform(min(k0), 3 * min(k0), r.randint(1, 4)))
    assign = bool(r.rand() < 0.3)
    describe(n=D.n[0], steps=D.steps, norigins=no, kgrid=kg, side=D.side[0].tolist(), assign=assign)
    with scratch() as tmp:
        path = os.path.join(tmp, 'r.xyz')
        with TrajectoryXYZ(path, 'w') as th:
            th.precision = 14
            th.variables = ['species', 'position', 'radius']
            for f in range(D.F):
                th.write(D.th[f], D.steps[f])
        with TrajectoryXYZ(path) as th:
            rad = [np.array([p.radius for p in s.particle], dtype=float) for s in th]
        c = pp.SpectralDensity(D.th, path, kgrid=list(kg), norigins=no, nk=int(r.choice([1, 5, 50])), dk=0.5)
        if assign:
            c.kvectors = [[list(np.array(v) * k0)] for v in ([1, 0, -2], [0, 3, 1])]
        try:
            c.compute()
        except ZeroDivisionError:
            # a shell as wide as to include the null vector
            if any(np.linalg.norm(v) < 1e-6 for g in c.kvectors for v in g):
                return None
            raise
    kv = [[np.array(v) for v in g] for g in c.kvectors]
    if any(np.linalg.norm(v) < 1e-6 for g in kv for v in g):
        return None
    out = []
    for g in kv:
        acc = []
        for f in range(0, D.F, c.skip):
            for k in g:
                q = np.linalg.norm(k)
                m = 4 * math.pi * (np.sin(q * rad[f]) - q * rad[f] * np.cos(q * rad[f])) / q**3
                acc.append(abs((m * np.exp(1j * (D.pos[f] @ k))).sum())**2)
        out.append(np.mean(acc) / np.mean([np.prod(s) for s in D.side]))
    return first(tag(close(c.value, out, 1e-7, 1e-9), 'values'),
                 tag(close(c.grid, [np.mean([np.linalg.norm(k) for k in g]) for g in kv]), 'grid'))


CHECKS = [check_values]
