PROPERTY = 'C01'
NEEDS = 'non-consecutive step numbers (frames not equally spaced): pairs of different elapsed times in one entry of the grid'
BREAKS = 'the elapsed time of a pair is taken from the first pair of the entry of the grid instead of from the pair itself'
EDITS = [('correlation.py', """        for i0 in range(off, len(x)-i, skip):
            # Get the actual time difference
            dt = t[i0+i] - t[i0]
""", """        for i0 in range(off, len(x)-i, skip):
            # Get the actual time difference
            dt = t[off+i] - t[off]
""")]
DEMO = '''
from atooms.postprocessing.correlation import gcf_offset
t = [0, 1, 3, 4, 9]
x = [1., 2., 4., 7., 11.]
grid, value = gcf_offset(lambda a, b: a * b, [(0, 1)], 1, t, x)
check(list(grid) == [1, 2, 5], 'elapsed times %s' % grid)
check(np.allclose(value, [(2. + 28.) / 2, 8., 77.]), 'values %s' % value)
'''
