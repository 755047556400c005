PROPERTY = 'C08'
NEEDS = 'two groups of particles that have the same number of particles'
BREAKS = 'the cross structure factor is the one of the first group'
EDITS = [('sk.py', '            if self._pos_0[i] is self._pos_1[i]:\n                # Identical species\n                expo_0 = expo_sphere(self.k0, self._koffset, self._pos_0[i])\n                expo_1 = expo_0\n            else:\n                # Cross correlation\n                expo_0 = expo_sphere(self.k0, self._koffset, self._pos_0[i])\n                expo_1 = expo_sphere(self.k0, self._koffset, self._pos_1[i])\n\n            # Define weights', '            if len(self._pos_0[i]) == len(self._pos_1[i]):\n                # Identical species\n                expo_0 = expo_sphere(self.k0, self._koffset, self._pos_0[i])\n                expo_1 = expo_0\n            else:\n                # Cross correlation\n                expo_0 = expo_sphere(self.k0, self._koffset, self._pos_0[i])\n                expo_1 = expo_sphere(self.k0, self._koffset, self._pos_1[i])\n\n            # Define weights')]
DEMO = '''
import atooms.postprocessing as pp
from atooms.postprocessing.helpers import filter_species
pos, _ = walk(3, 4, 12, (4., 4., 4.))
th = trajectory(pos, species=['A', 'B'] * 6)
cf = pp.StructureFactorLegacy(th, kgrid=[1.6, 3.2], nk=4, dk=0.2)
cf.add_filter(filter_species, 'A')
cf.add_filter(filter_species, 'B')
cf.compute()
for i, kl in enumerate(cf._kvectors):
    v = []
    for x in pos:
        for k in kl:
            q = (np.array(k) - cf._koffset) * 2 * np.pi / 4.
            a, b = [np.exp(1j * x[s::2].dot(q)).sum() for s in (0, 1)]
            v.append((a * b.conjugate()).real)
    check(abs(np.mean(v) / 6. - cf.value[i]) < 1e-9 * 6 + 1e-9, 'S(%g) = %g instead of %g' % (cf.grid[i], cf.value[i], np.mean(v) / 6.))
'''
