PROPERTY = 'C07'
NEEDS = 'a cell with different sides'
BREAKS = 'wave-vectors with large indices along the longest side are not found'
EDITS = [('fourierspace.py', 'kbin_max = 1 + int(kmax / min(k0))', 'kbin_max = 1 + int(kmax / max(k0))')]
DEMO = '''
from atooms.postprocessing.fourierspace import FourierSpaceCorrelation as F
side = np.array([12., 4., 4.])
k0 = 2 * np.pi / side
kgrid, dk = [1.0, 3.0], 0.2
kvec, off = F._setup_grid_sphere([dk] * 2, list(kgrid), k0)[:2]
r = np.arange(-12, 13)
all_ = np.array(np.meshgrid(r, r, r)).reshape(3, -1).T
norm = np.sqrt(((all_ * k0)**2).sum(1))
for i, k in enumerate(kgrid):
    want = {tuple(v) for v in all_[abs(norm - k) < dk]}
    got = {tuple(int(a) - off for a in v) for v in kvec[i]}
    check(got == want, 'shell %g: %d vectors instead of %d' % (k, len(got), len(want)))
'''
