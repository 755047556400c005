PROPERTY = 'C19'
NEEDS = 'a filter on the particles'
BREAKS = 'the susceptibility of a subset is divided by the number of all particles'
EDITS = [('chi4t.py', '            return self_overlap(x, y, self.a_square).sum()\n', '            return self_overlap(x, y, self.a_square).sum() * (len(x) / len(self.trajectory.read(0).particle))**0.5\n')]
DEMO = '''
import atooms.postprocessing as pp
from atooms.postprocessing.helpers import filter_species
pos, unf = walk(3, 12, 9, (8., 8., 8.), step=0.03)
th = trajectory(pos, (8., 8., 8.), species=['A', 'B', 'B'] * 3)
cf = pp.Chi4SelfOverlap(th, tgrid=[0.0, 1.0, 2.0], a=0.25)
cf.add_filter(filter_species, 'B')
cf.compute()
B = [i for i in range(9) if i % 3]
for t, v in zip(cf.grid, cf.value):
    q = [(np.sqrt(((unf[f + int(t)][B] - unf[f][B])**2).sum(1)) < 0.25).sum() for f in range(12 - int(t))]
    check(abs(np.var(q) / 6. - v) < 1e-9, 'chi_4(%g) = %g instead of %g' % (t, v, np.var(q) / 6.))
'''
