PROPERTY = 'C15'
NEEDS = 'filters given with keyword arguments'
BREAKS = 'the second filter is called with the keyword arguments of the first one'
EDITS = [('correlation.py', "                s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])\n                if 'pos' in self.phasespace:", "                s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[0])\n                if 'pos' in self.phasespace:")]
DEMO = '''
import copy
import atooms.postprocessing as pp
pos, _ = walk(3, 4, 15, (4., 4., 4.))
th = trajectory(pos, species=['A', 'B', 'C'] * 5)


def only(system, species='A'):
    s = copy.copy(system)
    s.particle = [p for p in system.particle if p.species == species]
    return s


cf = pp.StructureFactorLegacy(th, kgrid=[1.6])

cf.add_filter(only, species='B')
cf.add_filter(only, species='C')
cf._setup_arrays()
for f in range(4):
    check(np.allclose(cf._pos_0[f], pos[f][1::3]) and np.allclose(cf._pos_1[f], pos[f][2::3]), 'particles of frame %d' % f)
'''
