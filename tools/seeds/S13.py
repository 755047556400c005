PROPERTY = 'C13'
NEEDS = 'two dimensions'
BREAKS = 'one of the neighbouring subcells is listed from both sides, another is never visited'
EDITS = [('linkedcells.py', '[(ix+1, iy), (ix+1, iy+1), (ix, iy+1), (ix-1, iy+1)]', '[(ix+1, iy), (ix+1, iy+1), (ix, iy+1), (ix-1, iy-1)]')]
DEMO = '''
from atooms.postprocessing.linkedcells import LinkedCells
r = np.random.RandomState(1)
L = np.array([6., 7.])
x = (r.rand(80, 2) - 0.5) * L
nn = LinkedCells(1.2).compute(L, x)
for i in range(80):
    for j in range(i):
        u = x[i] - x[j]
        u -= np.rint(u / L) * L
        c = list(nn[i]).count(j) + list(nn[j]).count(i)
        check(c < 2 and (c == 1 or (u**2).sum() > 1.44), 'pair %d %d is listed %d times' % (i, j, c))
'''
