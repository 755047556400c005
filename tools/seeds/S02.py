PROPERTY = 'C02'
NEEDS = 'a system in two dimensions'
BREAKS = 'the fourth moment of the displacements has a wrong weight in two dimensions'
EDITS = [('alpha2.py', """            dr4 = numpy.sum(numpy.sum(dx2, axis=1)**2) / float(x.shape[0])
""", """            dr4 = numpy.sum(numpy.sum(dx2, axis=1)**2) * float(x.shape[1]) / float(max(x.size, 3 * len(x)))
""")]
DEMO = '''
from atooms.postprocessing import NonGaussianParameter
for side in [(4., 4., 4.), (4., 4.)]:
    pos, unf = walk(3, 5, 6, side)
    cf = NonGaussianParameter(trajectory(pos, side), tgrid=[0., 1., 2.], norigins=-1)
    cf.compute()
    d = len(side)
    for t, v in zip(cf.grid, cf.value):
        k = int(round(t))
        if k == 0:
            check(v == 0, 'zero time')
            continue
        want = []
        for i in range(5 - k):
            r2 = ((unf[i + k] - unf[i])**2).sum(axis=1)
            want.append(d * (r2**2).mean() / ((d + 2) * r2.mean()**2) - 1)
        check(np.allclose(v, np.mean(want)), '%dd: alpha2(%g) is %r instead of %r' % (d, t, v, np.mean(want)))
'''
