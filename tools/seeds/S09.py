PROPERTY = 'C09'
NEEDS = 'more particles than fit in one block, and not a multiple of its size'
BREAKS = 'the particles of the last, incomplete block are left out'
EDITS = [('fkt.py', '        block = min(200, block)\n\n        acf = [defaultdict(float) for _ in self.kgrid]\n        cnt = [defaultdict(float) for _ in self.kgrid]\n        origins = range(0, pos.shape[1], block)', '        block = min(200, block)\n\n        acf = [defaultdict(float) for _ in self.kgrid]\n        cnt = [defaultdict(float) for _ in self.kgrid]\n        origins = range(0, max(block, pos.shape[1] // block * block), block)')]
DEMO = '''
import atooms.postprocessing as pp
n = 27
pos, unf = walk(5, 4, n, (4., 4., 4.), step=0.05)
th = trajectory(pos)
cf = pp.SelfIntermediateScatteringLegacy(th, kgrid=[1.6, 3.2], tgrid=[0.0, 1.0, 2.0], nk=3, dk=0.2)
cf.compute()
for i, kl in enumerate(cf._kvectors):
    for j, t in enumerate(cf.grid[1]):
        v = []
        for f in range(len(pos) - int(t)):
            for k in kl:
                q = (np.array(k) - cf._koffset) * 2 * np.pi / 4.
                v.append(np.cos((unf[f + int(t)] - unf[f]).dot(q)).mean())
        check(abs(np.mean(v) - cf.value[i][j]) < 1e-9, 'F_s = %g instead of %g' % (cf.value[i][j], np.mean(v)))
'''
