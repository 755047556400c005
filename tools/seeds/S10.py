PROPERTY = 'C10'
NEEDS = 'two groups of particles'
BREAKS = 'the density of the second group is taken at the later time, for the pairs of the two-dimensional and three-dimensional case alike'
EDITS = [('fkt.py', 'acf[ik][dt] += (rho_0[i0+i][kvec] * rho_1[i0][kvec].conjugate()).real  #', 'acf[ik][dt] += (rho_0[i0][kvec] * rho_1[i0+i][kvec].conjugate()).real  #')]
DEMO = '''
import atooms.postprocessing as pp
from atooms.postprocessing.helpers import filter_species
pos, _ = walk(3, 5, 12, (4., 4., 4.))
th = trajectory(pos, species=['A', 'B', 'B'] * 4)
cf = pp.IntermediateScattering(th, kgrid=[1.6, 3.2], tgrid=[0.0, 1.0, 2.0], nk=4, dk=0.2, normalize=False)
cf.add_filter(filter_species, 'A')
cf.add_filter(filter_species, 'B')
cf.compute()
A = [i for i in range(12) if i % 3 == 0]
B = [i for i in range(12) if i % 3]
for i, kl in enumerate(cf._kvectors):
    for j, t in enumerate(cf.grid[1]):
        v = []
        for f in range(len(pos) - int(t)):
            for k in kl:
                q = (np.array(k) - cf._koffset) * 2 * np.pi / 4.
                a = np.exp(1j * pos[f + int(t)][A].dot(q)).sum()
                b = np.exp(1j * pos[f][B].dot(q)).sum()
                v.append((a * b.conjugate()).real)
        check(abs(np.mean(v) - cf.value[i][j]) < 1e-9, 'F = %g instead of %g' % (cf.value[i][j], np.mean(v)))
'''
