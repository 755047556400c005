PROPERTY = 'C22'
NEEDS = 'a list of times without t=0'
BREAKS = 'the list of times given by the user is modified'
EDITS = [('fkt.py', 'self.grid[1] = [0.0] + list(self.grid[1])', 'self.grid[1].insert(0, 0.0)')]
DEMO = '''
import atooms.postprocessing as pp
pos, _ = walk(3, 5, 6, (4., 4., 4.))
t = [1.0, 2.0]
pp.SelfIntermediateScattering(trajectory(pos), kgrid=[1.6], tgrid=t, nk=2, dk=0.2).compute()
check(t == [1.0, 2.0], 'the times are now %s' % t)
'''
