PROPERTY = 'C05'
NEEDS = 'a step larger than the range, or that does not divide it, and floating point values'
BREAKS = 'the last point of a linear grid given by its step is rounded up, beyond the upper bound'
EDITS = [('helpers.py', 'n = int((max_val - min_val) / delta) + 1', 'n = int(round((max_val - min_val) / delta)) + 1')]
DEMO = '''
from atooms.postprocessing.helpers import linear_grid
for a, b, d in [(0.0, 1.0, 0.3), (0.0, 1.0, 0.4), (0.5, 2.3, 0.7), (-1.0, 0.2, 0.25)]:
    g = linear_grid(a, b, d)
    check(max(g) <= b + 1e-9 and g[-1] + d > b - 1e-9, 'grid from %g to %g by %g: %s' % (a, b, d, g))
'''
