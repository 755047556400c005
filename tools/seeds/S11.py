PROPERTY = 'C11'
NEEDS = 'many particles, so that the pairs are binned in more than one batch, with the batch ending at the last particle but one'
BREAKS = 'the pairs of the last particles of all but the first batch are skipped'
EDITS = [('gr.py', 'for i in range(ib, min(ib+bl, len(y)-1)):', 'for i in range(ib, min(ib+bl, len(y)-1 - (ib > 0))):')]
DEMO = '''
import atooms.postprocessing as pp
from atooms.postprocessing.gr import pairs_newton_hist, gr_kernel
r = np.random.RandomState(1)
n = 330
x = (r.rand(n, 3) - 0.5) * 4
L = np.array([4.] * 3)
bins = np.linspace(0, 4, 9)
h = pairs_newton_hist(gr_kernel, x, x, L, bins)
d = []
for i in range(n - 1):
    u = x[i + 1:] - x[i]
    u -= np.rint(u / L) * L
    d += list(np.sqrt((u**2).sum(1)))
check(sum(h) == n * (n - 1) // 2 and np.all(h == np.histogram(d, bins)[0]), '%d pairs instead of %d' % (sum(h), n * (n - 1) // 2))
'''
