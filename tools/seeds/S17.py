PROPERTY = 'C17'
NEEDS = 'two groups of particles and fluctuations of the weight'
BREAKS = 'the mean of the weight of the second group is not subtracted'
EDITS = [('correlation.py', '            _subtract_mean(self._weight_0)\n            _subtract_mean(self._weight_1)', '            _subtract_mean(self._weight_0)\n            _subtract_mean(self._weight_0)')]
DEMO = '''
import atooms.postprocessing as pp
from atooms.postprocessing.helpers import filter_species
pos, _ = walk(3, 3, 10, (4., 4., 4.))
rad = np.arange(10) * 0.1
th = trajectory(pos, species=['A', 'B'] * 5, radius=rad)
cf = pp.StructureFactorLegacy(th, kgrid=[1.6], nk=2, dk=0.2)
cf.add_filter(filter_species, 'A')
cf.add_filter(filter_species, 'B')
cf.add_weight(field='radius', fluctuations=True)
cf._setup_arrays()
for f in range(3):
    check(np.allclose(cf._weight_0[f], rad[::2] - rad[::2].mean()), 'weights of the first group')
    check(np.allclose(cf._weight_1[f], rad[1::2] - rad[1::2].mean()), 'weights of the second group')
'''
