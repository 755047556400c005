PROPERTY = 'C18'
NEEDS = 'values or grids that are much smaller than one'
BREAKS = 'the files have a fixed number of decimals, so small values are lost'
EDITS = [('correlation.py', 'numpy.savetxt(fh, dump, fmt="%g")', 'numpy.savetxt(fh, dump, fmt="%.9f")')]
DEMO = '''
import os, shutil, tempfile
import atooms.postprocessing as pp
tmp = tempfile.mkdtemp()
try:
    pos, _ = walk(3, 4, 5, (4., 4., 4.), step=1e-7)
    cf = pp.MeanSquareDisplacement(trajectory(pos), tgrid=[0.0, 1.0, 2.0])
    cf.compute()
    cf.output_path = os.path.join(tmp, 'out')
    cf.write()
    x = np.loadtxt(cf._output_file)
    check(np.allclose(x[:, 1], cf.value, rtol=1e-5, atol=0), '%s instead of %s' % (x[:, 1], cf.value))
finally:
    shutil.rmtree(tmp)
'''
