PROPERTY = 'C21'
NEEDS = 'radii that change in time'
BREAKS = 'the radii of the first frame are used for all'
EDITS = [('ik.py', 'Ri = self._radius[i]', 'Ri = self._radius[0]')]
DEMO = '''
import os, shutil, tempfile
tmp = tempfile.mkdtemp()
try:
    from atooms.trajectory import TrajectoryXYZ
    import atooms.postprocessing as pp
    pos, _ = walk(3, 3, 6, (4., 4., 4.))
    r = np.random.RandomState(2)
    R = r.uniform(0.2, 0.6, (3, 6)).round(4)
    th = trajectory(pos)
    path = os.path.join(tmp, 'r.xyz')
    with TrajectoryXYZ(path, 'w') as out:
        out.variables = ['species', 'position', 'radius']
        for i in range(3):
            s = th[i]
            for p, x in zip(s.particle, R[i]):
                p.radius = x
            out.write(s, i)
    cf = pp.SpectralDensity(th, path, kgrid=[1.6, 3.2], nk=3, dk=0.2)
    cf.compute()
    for i, kl in enumerate(cf._kvectors):
        v = []
        for f in range(3):
            for k in kl:
                q = (np.array(k) - cf._koffset) * 2 * np.pi / 4.
                n = np.sqrt(q.dot(q))
                m = 4 * np.pi / n**3 * (np.sin(n * R[f]) - n * R[f] * np.cos(n * R[f]))
                v.append(abs((m * np.exp(1j * pos[f].dot(q))).sum())**2)
        check(abs(np.mean(v) / 64. - cf.value[i]) < 1e-4, 'I = %g instead of %g' % (cf.value[i], np.mean(v) / 64.))
finally:
    shutil.rmtree(tmp)
'''
