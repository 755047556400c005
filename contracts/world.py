"""
The surroundings of a correlation function: an abstract trajectory, the arrays
of the phase space and the contracts of the helpers that other properties
prove (C01 averages, C03 time grid, C04 stride, C15 arrays).
"""

from .common import *

F = ivar('len_frames')          # number of frames
B = ivar('block')
DT = rvar('timestep')
TOT = rvar('total_time')
NP = ivar('len_part')      # particles selected, of those of the frame
D = ivar('len_dim')
SKIP = ivar('skip')
STEP = lambda i: app('step', i, sort='int')

# what the contracts of the helpers guarantee
FACTS = [gt0(F), gt0(B), gt0(SKIP), gt0(NP), gt0(ivar('len_all') - NP + 1), gt0(D)]


def the_cell(I, i):
    return P.Sym('cell', {'side': lambda I: array(I, 'side', (D,)), 'volume': lambda I: N(app('volume', i), 'float')},
                 key=T.to_poly(i), ops={'rekey': lambda k: the_cell(I, k)})


def frame(I, i, attrs=None):
    cell = the_cell(I, i)
    d = {'cell': lambda I: cell, 'number_of_dimensions': lambda I: N(D, 'int'),
         'particle': lambda I: I.list_fn(ivar('len_all'), lambda p: P.Opq(app('particle', i, p, sort='obj')))}
    d.update(attrs or {})
    return P.Sym('frame', d, key=T.to_poly(i), ops={'rekey': lambda k: frame(I, k, attrs)})


def trajectory(I, attrs=None, fr=frame):
    d = {'filename': lambda I: P.Opq(var('filename', 'obj'), 'str'),
         'block_size': lambda I: N(B, 'int'),
         'timestep': lambda I: N(DT, 'float'),
         'total_time': lambda I: N(TOT, 'float'),
         'steps': lambda I: num_list(I, 'step', F, 'int'),
         'read': lambda I: P.Bi('read', lambda I, a, k: fr(I, M_num(a[0])))}
    d.update(attrs or {})
    return P.Sym('trajectory', d, key='th', ops={'getitem': lambda I, i: fr(I, M_num(i)), 'len': lambda I: F,
                                                'item': lambda I, k: fr(I, k)})


def M_num(v):
    from vc import models as M
    return M.num(v) if not isinstance(v, (int,)) else T.to_poly(v)


def fn_of(I, v):
    """A list or array of numbers as (lambda, length)"""
    n = I.length(v)
    nm = fresh('_g')
    return lam([nm], I.pure(lambda: elem(I, v, ivar(nm))).p), n


# ---- contract of setup_t_grid (C03): entries of the internal grid as functions of the requested one

def flag(I, v):
    p = I.truth_poly(v)
    return p


class TGrid(object):
    """Internal time grid for the requested times curve(0..n-1)"""

    def __init__(self, curve, n, offset):
        self.args = (curve, n, offset)
        self.n = app('len_tgrid', curve, n, offset, sort='int')

    def off(self, j):
        return app('toff', *self.args, j, sort='int')

    def sep(self, j):
        return app('tsep', *self.args, j, sort='int')


NONNEG = ('len_tgrid', 'toff', 'tsep')


def _in_range(*a):
    off, sep = app('toff', *a, sort='int'), app('tsep', *a, sort='int')
    return [ge0(off), ge0(sep), gt0(F - off - sep)]


# the frames of an entry exist (C03) and the stride is positive (C04)
AX = {'stride': lambda *a: [gt0(app('stride', *a, sort='int'))], 'toff': _in_range, 'tsep': _in_range}


def setup_t_grid(I, env):
    curve, n = fn_of(I, env['t_grid'])
    g = TGrid(curve, n, flag(I, env['offset']))
    same_trajectory(I, env['trajectory'])
    return I.list_fn(g.n, lambda j: P.Tup((N(g.off(j), 'int'), N(g.sep(j), 'int'))))


def same_trajectory(I, th):
    if not (isinstance(th, P.Sym) and th.key == 'th'):
        I.oblige('the trajectory of the correlation is used', ZERO)


def adjust_skip(I, env):
    """C04; the value is the stride of the requested number of origins"""
    same_trajectory(I, env['trajectory'])
    return N(stride(I, env['n_origins']), 'int')


def stride(I, v):
    if v is None:
        return app('stride', var('none', 'obj'), sort='int')
    if isinstance(v, str):
        return app('stride', var('str:' + v, 'obj'), sort='int')
    return app('stride', v.p, sort='int')


def gcf_offset(I, env):
    """C01"""
    f, grid, skip, t, x = [env[k] for k in ('f', 'grid', 'skip', 't', 'x')]
    ng, n = I.length(grid), I.length(x)
    I.oblige('gcf_offset: the stride is positive', gt0(M_num(skip)))
    pairs = Pairs(ng, lambda j: item(I, grid, j, ZERO).p, lambda j: item(I, grid, j, ONE).p, M_num(skip), n, lambda i: elem(I, t, i).p)
    L = pairs.times()

    def F_(a, b):
        return I.pure(lambda: I.call(f, [I.seq_get(x, b), I.seq_get(x, a)])).p
    return P.Tup((I.list_fn(nsk(L), lambda k: N(sk(L, k), 'int')),
                  I.list_fn(nsk(L), lambda k: N(pairs.average(sk(L, k), F_), 'float'))))


def logx_grid(I, env):
    """C05"""
    a, b, n = [M_num(env[k]) for k in ('x1', 'x2', 'n')]
    return I.list_fn(n, lambda j: N(app('logx', a, b, n, j), 'float'))


CONTRACTS = {'helpers.logx_grid': logx_grid, 'helpers.setup_t_grid': setup_t_grid, 'helpers.adjust_skip': adjust_skip, 'correlation.gcf_offset': gcf_offset}


def frames_of_arrays(I, name, np_=None):
    """List over frames of arrays (particles, dimensions)"""
    return I.list_fn(F, lambda j: I.arr_fn((NP if np_ is None else np_(j), D), lambda p, a: app(name, j, p, a), 'float'))


def linear(a, b, n):
    """(lambda, length) of the linear grid with an integer number of points (C05), n > 1"""
    nm = fresh('_g')
    return lam([nm], a + ivar(nm) * ((b - a) * T.inv(n - 1))), n


def given(name='tgrid'):
    nm = fresh('_g')
    return lam([nm], app(name, ivar(nm))), ivar('len_' + name)


def check_times(I, obj, pairs, f, what=''):
    """the grid of obj is in units of time, its values are the averages of f"""
    g, v = I.getattr(obj, 'grid'), I.getattr(obj, 'value')
    L = pairs.times()
    n = nsk(L)
    yield what + 'number of times', length_is(I, g, n)
    yield what + 'number of values', length_is(I, v, n)
    k = ivar(fresh('_k'))
    d = sk(L, k)
    yield from ranged([
        (what + 'times are the elapsed steps times the time step', ('eq', elem(I, g, k).p, d * DT)),
        (what + 'values', ('eq', elem(I, v, k).p, pairs.average(d, f)))], k, n)
