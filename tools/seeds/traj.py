"""A trajectory in memory"""
import numpy as np


def trajectory(pos, side=(4., 4., 4.), steps=None, vel=None, species=None, mass=None, radius=None, timestep=1.0):
    """pos: list over the frames of arrays of positions (folded)"""
    from atooms.trajectory import TrajectoryRam
    from atooms.system import System, Particle, Cell
    th = TrajectoryRam()
    steps = list(range(len(pos))) if steps is None else steps
    for f in range(len(pos)):
        s = System()
        n = len(pos[f])
        s.particle = [Particle(position=np.array(pos[f][i], dtype=float),
                               velocity=np.array(vel[f][i] if vel is not None else np.zeros(len(side)), dtype=float),
                               species=species[i] if species is not None else 'A',
                               mass=mass[i] if mass is not None else 1.0,
                               radius=radius[i] if radius is not None else 0.5) for i in range(n)]
        s.cell = Cell(side=np.array(side, dtype=float))
        th.write(s, steps[f])
    th.timestep = timestep
    return th


def walk(seed, nframes, n, side, step=0.1, steps=None):
    """Random walks: folded and unfolded positions of each frame"""
    r = np.random.RandomState(seed)
    side = np.array(side, dtype=float)
    x = (r.rand(n, len(side)) - 0.5) * side
    pos, unf = [], []
    for f in range(nframes):
        unf.append(x.copy())
        pos.append(x - np.floor(x / side + 0.5) * side)
        x = x + r.uniform(-1, 1, x.shape) * step * side
    return pos, unf


def check(ok, msg):
    if not ok:
        print('FAILS: ' + msg)
        raise SystemExit(1)
