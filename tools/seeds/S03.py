PROPERTY = 'C03'
NEEDS = 'a requested time exactly half way between two available step differences'
BREAKS = 'ties between two equally near step differences go to the larger one'
EDITS = [('helpers.py', """        def compare(x):
            return abs(x - t)
""", """        def compare(x):
            return abs(x - t), -x
""")]
DEMO = '''
from atooms.postprocessing.helpers import _templated, setup_t_grid
check(_templated([1, 5, 10], [3, 9]) == [1, 10], 'tie: %s' % _templated([1, 5, 10], [3, 9]))
pos, unf = walk(3, 4, 3, (4., 4.))
grid = setup_t_grid(trajectory(pos, (4., 4.), steps=[0, 2, 4, 6]), [3.0], offset=False)
check(list(grid) == [(0, 1)], 'grid %s' % grid)
'''
