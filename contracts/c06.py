"""C06: curve analysis: crossings, extrema, linear fits and derived times"""

from .common import *

X = lambda i: app('x', i)
Y = lambda i: app('f', i)
NX, NF = ivar('len_x'), ivar('len_f')


def crossing(n, x, f, star):
    """
    (no crossing, crossing point, index): the linear interpolation at the
    first change of side with respect to star
    """
    side = lambda i: lt0((f(i) - star) * (f(ZERO) - star))
    interp = lambda i: x(i - 1) + (star - f(i - 1)) * (x(i) - x(i - 1)) * T.inv(f(i) - f(i - 1))
    return none_below(n, side), first(n, side, interp), first(n, side, lambda i: i)


def prove(pr):
    star = rvar('fstar')
    x_f = lambda I: [num_list(I, 'x', NX), num_list(I, 'f', NF)]

    # ---- crossings
    n = T.minp(NX, NF)
    none, xs, idx = crossing(n, X, Y, star)

    def post(I, kind, v):
        xstar, istar = I.concrete_items(v)
        if istar is None or xstar is None:
            yield 'nothing is returned', is_none(xstar)
            yield 'no index is returned', is_none(istar)
            yield 'only if the data never cross', none
        else:
            yield 'there is a crossing', ONE - none
            yield 'linear interpolation at the first change of side', ('eq', xstar.p, xs)
            yield 'index of the second point', ('eq', istar.p, idx)
    pr.verify('helpers.feqc', lambda I: I.call(I.module('helpers').get('feqc'), x_f(I) + [N(star, 'float')]),
              post, [gt0(NX), gt0(NF)])

    # ---- extrema
    def post(I, kind, v):
        curve = the_lam(1, Y)
        for t, nm, what in zip(I.concrete_items(v), ('ARGMIN', 'ARGMAX'), ('minimum', 'maximum')):
            xv, yv = [c.p for c in I.concrete_items(t)]
            i = app(nm, curve, NF, sort='int')          # the first one among equal ones
            edge = [T.eq0(i * (i - NF + 1))]
            inner = [ONE - e for e in edge]
            yield what + ' at the boundary: abscissa', ('under', edge, ('eq', xv, X(i)))
            yield what + ' at the boundary: value', ('under', edge, ('eq', yv, Y(i)))
            # otherwise the vertex of the parabola through the three points
            pts = [(X(i + s), Y(i + s)) for s in (-1, 0, 1)]
            par, der = ZERO, ZERO
            for j, (xj, yj) in enumerate(pts):
                (a, _), (b, _) = [q for m, q in enumerate(pts) if m != j]
                w = yj * T.inv((xj - a) * (xj - b))
                par = par + w * (xv - a) * (xv - b)
                der = der + w * (2 * xv - a - b)
            yield what + ': slope of the parabola is zero', ('under', inner, ('eq', der, ZERO))
            yield what + ': value of the parabola', ('under', inner, ('eq', yv, par))
    pr.verify('helpers.ifabsmm', lambda I: I.call(I.module('helpers').get('ifabsmm'), x_f(I)), post, [gt0(NF), T.eq0(NX - NF)])

    # ---- linear fit
    def arrs(I):
        return [array(I, 'x', (NX,)), array(I, 'f', (NX,))]

    def post(I, kind, v):
        a, b = [I.concrete_items(v)[i].p for i in (0, 1)]
        S = lambda f: the_sum([NX], f)
        sx, sy, sxy, sxx = S(X), S(Y), S(lambda i: X(i) * Y(i)), S(lambda i: X(i) * X(i))
        # the normal equations, i.e. the gradient of sum (y - a x - b)^2 vanishes
        yield 'normal equation of the slope', ('eq', a * sxx + b * sx, sxy)
        yield 'normal equation of the intercept', ('eq', a * sx + b * NX, sy)
        # standard errors: variance of the residuals over n - 2 degrees of freedom (zero through two points)
        sa, sb = [I.concrete_items(v)[i].p for i in (2, 3)]
        syy = S(lambda i: Y(i) * Y(i))
        dev = NX * sxx - sx * sx
        var = (NX * syy - sy * sy - a * a * dev) * T.inv(NX * (NX - 2))
        for nm, got, of in (('slope', sa, NX * var * T.inv(dev)), ('intercept', sb, sxx * var * T.inv(dev))):
            yield 'standard error of the %s' % nm, ('under', [gt0(NX - 2)], ('eq', got, T.sqrt(of)))
            yield 'no error of the %s through two points' % nm, ('under', [le0(NX - 2)], ('eq', got, T.sqrt(ZERO)))
    pr.verify('helpers.linear_fit', lambda I: I.call(I.module('helpers').get('linear_fit'), arrs(I)), post, [gt0(NX - 1)])

    # ---- derived analyses, over the contracts of the helpers above
    e_inv = T.inv(app('exp', ONE))
    KN, TN = ivar('len_k'), ivar('len_t')

    def crossing_of(I, x, f, star):
        fx, nx = curve_of(I, x)
        ff, nf = curve_of(I, f)
        return app('crossing', fx, nx, ff, nf, star, sort='obj')

    def feqc(I, env):
        c = crossing_of(I, env['x'], env['f'], env['fstar'].p)
        return P.Tup((P.Opq(c, 'any'), P.Opq(app('index', c, sort='obj'), 'any')))

    def ifabsmm(I, env):
        c = curve_of(I, env['x']) + curve_of(I, env['f'])
        mk = lambda w: P.Tup((N(app(w + '_x', *c), 'float'), N(app(w + '_y', *c), 'float')))
        return P.Tup((mk('min'), mk('max')))

    def linear_fit(I, env):
        c = curve_of(I, env['xdata']) + curve_of(I, env['ydata'])
        return P.Tup(tuple(N(app(w, *c), 'float') for w in ('slope', 'intercept', 'slope_error', 'intercept_error')))
    C = {'helpers.feqc': feqc, 'helpers.ifabsmm': ifabsmm, 'helpers.linear_fit': linear_fit}

    G = lambda i: app('k', i)
    TT = lambda j: app('t', j)
    VV = lambda i, j: app('v', i, j)

    def two_d(I):
        grid = P.Tup((num_list(I, 'k', KN), num_list(I, 't', TN)))
        value = I.list_fn(KN, lambda i: I.list_fn(TN, lambda j: N(VV(i, j), 'float')))
        return grid, value

    def post_tau(I, kind, tau):
        if kind == 'exc':
            # the grid of times must start at zero
            yield 'refused only if the first time is positive', gt0(TT(ZERO))
            return
        i = ivar(fresh('_v'))
        I.facts += [ge0(i), lt0(i - KN)]
        got = I.M.dict_get(I, tau, N(G(i), 'float'))
        nm, m = fresh('_g'), fresh('_g')
        want = app('crossing', lam([nm], TT(ivar(nm))), TN, lam([m], VV(i, ivar(m))), TN, VV(i, ZERO) * e_inv, sort='obj')
        yield from ranged([('the relaxation time of every wave-number is the crossing of 1/e of the initial value',
                            ('eq', got.p if isinstance(got, (P.Opq, P.N)) else var('other', 'obj'), want))], i, KN)
        yield 'one time per wave-number', ('eq', I.length(tau), KN)

    def run_tau(I):
        I.injective = {'k'}
        grid, value = two_d(I)
        return I.call(I.module('fkt').get('_extract_tau'), [grid.items[0], grid.items[1], value])
    pr.verify('fkt._extract_tau', run_tau, post_tau, [gt0(KN), gt0(TN)], contracts=C, allow_exc=('ValueError',))

    for cls in ('SelfIntermediateScatteringLegacy', 'IntermediateScattering', 'SelfIntermediateScatteringFast'):
        def run(I):
            I.injective = {'k'}
            grid, value = two_d(I)
            obj = bare(I, 'fkt', cls, grid=grid, value=value)
            I.call(I.getattr(obj, 'analyze'), [])
            return I.M.dict_get(I, I.getattr(obj, 'analysis'), 'relaxation times tau')
        pr.verify('fkt.%s.analyze' % cls, run, post_tau, [gt0(KN), gt0(TN)], contracts=C, allow_exc=('ValueError',))

    # one curve
    def curve(I):
        return num_list(I, 't', TN), num_list(I, 'v', TN)
    nm = fresh('_g')
    tt = lam([nm], TT(ivar(nm)))
    vv = lam([nm], app('v', ivar(nm)))

    def run(I):
        t, v = curve(I)
        obj = bare(I, 'qt', 'SelfOverlap', grid=t, value=v)
        I.call(I.getattr(obj, 'analyze'), [])
        return I.M.dict_get(I, I.getattr(obj, 'analysis'), 'tau')

    def post(I, kind, v):
        yield 'the relaxation time is the crossing of 1/e', ('eq', v.p, app('crossing', tt, TN, vv, TN, e_inv, sort='obj'))
    pr.verify('qt.SelfOverlap.analyze', run, post, [gt0(TN)], contracts=C)

    for mod, cls, xk, yk in (('alpha2', 'NonGaussianParameter', 't_star', 'a2_star'),
                             ('chi4t', 'Chi4SelfOverlap', 'peak time tau_star', 'peak height chi4_star')):
        def run(I):
            t, v = curve(I)
            obj = bare(I, mod, cls, grid=t, value=v)
            I.call(I.getattr(obj, 'analyze'), [])
            a = I.getattr(obj, 'analysis')
            return [I.M.dict_get(I, a, xk), I.M.dict_get(I, a, yk)]

        def post(I, kind, v):
            yield 'the peak time is the abscissa of the maximum', ('eq', v[0].p, app('max_x', tt, TN, vv, TN))
            yield 'the peak height is its value', ('eq', v[1].p, app('max_y', tt, TN, vv, TN))
        pr.verify('%s.%s.analyze' % (mod, cls), run, post, [gt0(TN)], contracts=C)

    # mean square displacement
    sigma = rvar('sigma')
    ndim = ivar('ndims')

    def run(I):
        t, v = curve(I)
        system = P.Sym('system', {'number_of_dimensions': lambda I: N(ndim, 'int')})
        th = P.Sym('trajectory', {'read': lambda I: P.Bi('read', lambda I, a, k: system)})
        obj = bare(I, 'msd', 'MeanSquareDisplacement', grid=t, value=v, sigma=N(sigma, 'float'), trajectory=th)
        I.call(I.getattr(obj, 'analyze'), [])
        a = I.getattr(obj, 'analysis')
        has = I.M.dict_has(I, a, 'diffusion coefficient D')
        return [I.M.dict_get(I, a, 'diffusive time tau_D'), I.M.dict_get(I, a, 'diffusion coefficient D') if has is ONE else has]

    def post(I, kind, v):
        yield 'the diffusive time is the crossing of sigma squared', ('eq', v[0].p, app('crossing', tt, TN, vv, TN, sigma ** 2, sort='obj'))
        above = lambda j: gt0(app('v', j) - sigma ** 2)
        n = the_sum([TN], above)
        if not isinstance(v[1], P.N):
            yield 'no diffusion coefficient only with less than two points above sigma squared', lt0(n - 2)
            return
        L = lambda f: lam([nm], f(T.sel(TN, lam([m_], above(ivar(m_))), ivar(nm))))
        m_ = fresh('_g')
        slope = app('slope', L(TT), n, L(lambda j: app('v', j)), n)
        yield 'the diffusion coefficient is the slope above sigma squared over 2d', ('eq', v[1].p, slope * T.inv(2 * ndim))
    pr.verify('msd.MeanSquareDisplacement.analyze', run, post, [gt0(TN), gt0(ndim)], contracts=C)


def curve_of(I, v):
    n = I.length(v)
    nm = fresh('_g')
    return [lam([nm], elem(I, v, ivar(nm)).p if not I.is_arr(v) else I.at(v, ivar(nm))), n]
