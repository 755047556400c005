PROPERTY = 'C20'
NEEDS = 'several species and a width of the shells that is not the default'
BREAKS = 'the partial structure factors use the default width of the shells'
EDITS = [('api.py', "            cf = Partial(backend, ids, th, kgrid=kgrid,\n                         norigins=global_args['norigins'],\n                         kmin=kmin, kmax=kmax, nk=nk, dk=dk,\n                         ksamples=ksamples)\n            cf.add_weight", "            cf = Partial(backend, ids, th, kgrid=kgrid,\n                         norigins=global_args['norigins'],\n                         kmin=kmin, kmax=kmax, nk=nk,\n                         ksamples=ksamples)\n            cf.add_weight")]
DEMO = '''
import os, shutil, tempfile
tmp = tempfile.mkdtemp()
try:
    from atooms.trajectory import TrajectoryXYZ
    from atooms.postprocessing import api, core
    import atooms.postprocessing.sk as sk
    pos, _ = walk(3, 4, 10, (4., 4., 4.))
    th = trajectory(pos, species=['A', 'B'] * 5)
    with TrajectoryXYZ(os.path.join(tmp, 'x.xyz'), 'w') as out:
        for i in range(4):
            out.write(th[i], i)
    seen = []
    old = sk.StructureFactorLegacy.compute

    def compute(self):
        seen.append(self.dk)
        return old(self)

    sk.StructureFactorLegacy.compute = compute
    api.sk(os.path.join(tmp, 'x.xyz'), dk=0.35, kmin=1.0, kmax=3.0, ksamples=2, nk=3)
    check(len(seen) == 4 and all(x == 0.35 for x in seen), 'widths of the shells %s' % seen)
finally:
    shutil.rmtree(tmp)
'''
