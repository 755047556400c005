PROPERTY = 'C16'
NEEDS = 'a correlation that is not symmetric under the exchange of the species'
BREAKS = 'the correlation of the pair B-A is copied from A-B'
EDITS = [('partial.py', 'if j >= i or not self.partial[(isp, jsp)]._symmetric:', 'if j >= i or (not self.partial[(isp, jsp)]._symmetric and len(self.species) > 2):')]
DEMO = '''
import atooms.postprocessing as pp
r = np.random.RandomState(1)
pos = [(r.rand(20, 3) - 0.5) * 6. for _ in range(3)]
th = trajectory(pos, (6., 6., 6.), species=['A', 'A', 'B', 'B', 'B'] * 4)
kw = dict(dtheta=30.0, rcut=[[2.0, 2.5], [2.5, 3.0]], norigins=-1)
cf = pp.Partial(pp.BondAngleDistribution, ['A', 'B'], th, **kw)
cf.compute()
from atooms.postprocessing.helpers import filter_species
one = pp.BondAngleDistribution(th, **kw)
one.add_filter(filter_species, 'B')
one.add_filter(filter_species, 'A')
one.compute()
check(np.allclose(cf.partial[('B', 'A')].value, one.value), 'angles around B')
'''
