PROPERTY = 'C12'
NEEDS = 'a cell with different sides'
BREAKS = 'pairs of two groups are not folded along the shorter sides'
EDITS = [('realspace.f90', '          dist(:) = positions2(j,:) - pos(:)\n          where (abs(dist) > hbox)\n', '          dist(:) = positions2(j,:) - pos(:)\n          where (abs(dist) > maxval(hbox))\n')]
DEMO = '''
from atooms.postprocessing.realspace_wrap import compute
r = np.random.RandomState(1)
L = np.array([6., 3., 4.])
x, y = [(r.rand(n, 3) - 0.5) * L for n in (8, 11)]
hist, bins = np.zeros(12, dtype=int), np.zeros(12)
compute.gr_distinct_c(x, y, L, 0.25, hist, bins)
u = x[:, None] - y[None]
u -= np.rint(u / L) * L
d = np.sqrt((u**2).sum(-1)).flatten()
want = np.bincount((d[d < 3.0] / 0.25).astype(int), minlength=12)
check(np.all(hist == want), '%s instead of %s' % (hist, want))
'''
