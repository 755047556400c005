PROPERTY = 'C06'
NEEDS = 'data that touch the target exactly before crossing it'
BREAKS = 'a point equal to the target counts as a crossing'
EDITS = [('helpers.py', """        if (f[i] - fstar) * s < 0.0:
""", """        if i > 0 and (f[i] - fstar) * s <= 0.0:
""")]
DEMO = '''
from atooms.postprocessing.helpers import feqc
x, f = [0., 1., 2., 3.], [2., 1., 2., 0.]
check(np.allclose(feqc(x, f, 1.0), (2.5, 3)), 'crossing %s' % (feqc(x, f, 1.0),))
check(feqc([0., 1., 2.], [2., 1., 2.], 1.0) == (None, None), 'curve that touches but does not cross')
'''
