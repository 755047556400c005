PROPERTY = 'C04'
NEEDS = 'a number of frames that is an exact multiple of the block size, and a number of origins larger than one'
BREAKS = 'the last block is not counted, so the stride is shorter than the requested number of origins implies'
EDITS = [('helpers.py', """            nbl = len(trajectory.steps) // trajectory.block_size
""", """            nbl = max(1, (len(trajectory.steps) - (trajectory.block_size > 1)) // trajectory.block_size)
""")]
DEMO = '''
from atooms.postprocessing.helpers import adjust_skip
class Th(object):
    steps = [0, 1, 2, 8, 9, 10, 16, 17, 18, 24, 25, 26]
    block_size = 3
skip = adjust_skip(Th(), 2)
check(skip == 6, 'stride %s' % skip)
'''
