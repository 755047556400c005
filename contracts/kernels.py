"""
Contracts of the compiled kernels (realspace.f90, fourierspace.f90), as their
Python callers see them.  Property C12 proves them on the Fortran source.
"""

from .common import *


def overlap(I, x, y, a2):
    """number of particles displaced by less than a"""
    sx = I.state(x).shape
    return the_sum([sx[0]], lambda p: lt0(the_sum([sx[1]], lambda d: (I.at(x, p, d) - I.at(y, p, d)) ** 2) - a2))


def scalar(I, v):
    from vc import models as M
    if I.is_arr(v):
        return I.at(v)
    return M.num(v)


def self_overlap(I, a, k):
    x, y, a2 = a
    sx, sy = I.state(x).shape, I.state(y).shape
    for d in (0, 1):
        I.oblige('self_overlap: the two arrays have the same shape', eq0(sx[d] - sy[d]))
    return N(overlap(I, x, y, scalar(I, a2)), 'float')


REALSPACE = {'self_overlap': self_overlap}


def sk_bare(I, a, k):
    """rho(v) is the product of the exponentials, summed over the particles (ikvec: indices from 1)"""
    expo, ikvec, rho = a
    se, si, sr = I.state(expo).shape, I.state(ikvec).shape, I.state(rho).shape
    I.oblige('sk_bare: three dimensions', eq0(si[0] - 3))
    I.oblige('sk_bare: one density per wave-vector', eq0(sr[0] - si[1]))
    I.oblige('sk_bare: exponentials of three components', eq0(se[1] - 3))

    def f(v):
        return the_sum([se[0]], lambda p: I.at(expo, p, ZERO, I.at(ikvec, ZERO, v) - 1) * I.at(expo, p, ONE, I.at(ikvec, ONE, v) - 1) *
                       I.at(expo, p, cst(2), I.at(ikvec, cst(2), v) - 1))
    nm = I.state(rho).names
    I.store_arr(rho, f(var(nm[0], 'int')))


def fskt(nd):
    def f(I, a, k):
        """sum over the particles of the product over the components of expo(t1)*conj(expo(t2)); indices from 1"""
        expo, t1, t2, ik = a
        se, si = I.state(expo).shape, I.state(ik).shape
        t1, t2 = scalar(I, t1) - 1, scalar(I, t2) - 1
        if len(se) != 4 or len(si) != 1:
            raise P.PyExc('ValueError', 'wrong number of dimensions')
        I.oblige('fskt_kernel: number of components', eq0(se[2] - nd))
        I.oblige('fskt_kernel: one index per component', eq0(si[0] - nd))
        for t in (t1, t2):
            I.oblige('fskt_kernel: frame within the exponentials', ge0(t) * lt0(t - se[0]))
        for d in range(nd):
            x = I.at(ik, cst(d)) - 1
            I.oblige('fskt_kernel: index within the exponentials', ge0(x) * lt0(x - se[3]))

        def term(p):
            r = ONE
            for d in range(nd):
                x = I.at(ik, cst(d)) - 1
                r = r * I.at(expo, t1, p, cst(d), x) * T.conj(I.at(expo, t2, p, cst(d), x))
            return r
        return N(the_sum([se[1]], term), 'complex')
    return f


FOURIERSPACE = {'sk_bare': sk_bare, 'fskt_kernel_3d': fskt(3), 'fskt_kernel_2d': fskt(2), 'fskt_kernel_nd': None}


def unknown(I, a, k):
    raise P.Unsupported('kernel without a contract')


def module(name, table):
    def get(k):
        if k not in table:
            raise P.Unsupported('kernel %s' % k)
        return P.Bi('%s.%s' % (name, k), table[k] or unknown)
    return P.Mod(name, get)


OVERRIDES = {('atooms.postprocessing.realspace_wrap', 'compute'): module('compute', REALSPACE)}
