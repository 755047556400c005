PROPERTY = 'C14'
NEEDS = 'a matrix of cutoffs that is not symmetric'
BREAKS = 'the cutoffs of the neighbours are the ones of the neighbours, not the ones of the central particle'
EDITS = [('ba.py', 'self.rcut[isp, :],', 'self.rcut[:, isp],')]
DEMO = '''
import atooms.postprocessing as pp
r = np.random.RandomState(1)
side = (6., 6., 6.)
pos = [(r.rand(14, 3) - 0.5) * 6. for _ in range(2)]
spe = ['A', 'B'] * 7
th = trajectory(pos, side, species=spe)
rcut = np.array([[1.5, 2.6], [1.9, 1.3]])
cf = pp.BondAngleDistribution(th, dtheta=20.0, rcut=rcut.tolist(), norigins=-1)
cf.compute()
ang = []
s = np.array([0, 1] * 7)
for x in pos:
    for i in range(14):
        u = x - x[i]
        u -= np.rint(u / 6.) * 6.
        d = np.sqrt((u**2).sum(1))
        nb = [j for j in range(14) if j != i and d[j] < rcut[s[i], s[j]]]
        for a in nb:
            for b in nb:
                if a < b:
                    ang.append(np.degrees(np.arccos(np.clip(u[a].dot(u[b]) / d[a] / d[b], -1, 1))))
h = np.histogram(ang, np.arange(0, 181, 20.))[0]
want = h / (float(h.sum()) * 20.)
check(len(cf.value) == len(want) and np.allclose(cf.value, want), '%s instead of %s' % (cf.value, want))
'''
