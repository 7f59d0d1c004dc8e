"""P21: Rowland torus: implicit form, parametric form and normals agree."""
import numpy as np
from marxsvc.contract import contract
from marxs.design import rowland as mod
from marxs.design.rowland import RowlandTorus, design_tilted_torus, double_rowland_from_channel_distance, add_offset_double_rowland_channels


def torus(ctx, zoom=(1., 1., 1.)):
    R = ctx.scalar('Rt', .5, 100.)
    r = ctx.scalar('rt', .5, 100.)
    P, p = ctx.placement('P', zoom=zoom)
    return RowlandTorus(R=R, r=r, pos4d=P), R, r, P, p


def local(ctx, R, r, th, ph):
    c, s = ctx.np.cos, ctx.np.sin
    f = R + r * c(th)
    return ctx.np.stack([f * c(ph), r * s(th), f * s(ph)], axis=-1)


def place(p, x):
    return p['t'] + np.dot(x * p['zoom'], p['R'].T)


def angles(ctx, N):
    return ctx.array('theta', (N,), -3.1, 6.2), ctx.array('phi', (N,), -3.1, 6.2)


@contract('P21', 'parametric')
def parametric(ctx):
    """A parametric point is at distance r from the circle of radius R, turned
    by phi about the y axis, moved by the placement; all of these solve the quartic."""
    N = ctx.dim('N')
    t, R, r, P, p = torus(ctx)
    th, ph = angles(ctx, N)
    x = t.parametric(th, ph)
    ctx.shape_is('shape', x, (N, 4))
    want = place(p, local(ctx, R, r, th, ph))
    ctx.ensure('point', ctx.alltrue(ctx.eq(x[:, :3], want, tol=1e-6), axis=1))
    ctx.ensure('point, not direction', ctx.eq(x[:, 3], 1.))
    q = t.quartic(x[:, :3])
    ctx.shape_is('one value for each point', q, (N,))
    ctx.ensure('on the torus', ctx.eq(q / (R + r)**4, 0., tol=1e-6))
    q = t.quartic(local(ctx, R, r, th, ph), transform=False)
    ctx.ensure('on the torus in local coordinates', ctx.eq(q / (R + r)**4, 0., tol=1e-6))


@contract('P21', 'quartic')
def quartic(ctx):
    """The implicit form vanishes exactly for points at distance r from the
    circle of radius R in the local x-z plane."""
    N = ctx.dim('N')
    t, R, r, P, p = torus(ctx, None)
    rho = ctx.array('rho', (N,), 0., 100.)
    y = ctx.array('y', (N,), -100., 100.)
    a = ctx.array('a', (N,), -3.1, 3.1)
    x = ctx.np.stack([rho * ctx.np.cos(a), y, rho * ctx.np.sin(a)], axis=-1)
    out = (rho - R)**2 + y**2 - r**2
    inn = (rho + R)**2 + y**2 - r**2
    sc = (R + r + rho + ctx.np.abs(y))**4
    ctx.ensure('local', ctx.eq(t.quartic(x, transform=False) / sc, out * inn / sc, tol=1e-6))
    ctx.ensure('global', ctx.eq(t.quartic(place(p, x)) / sc, out * inn / sc, tol=1e-6))
    ctx.raises('homogeneous coordinates', ValueError, t.quartic, ctx.hom(x, 1))


@contract('P21', 'one_point')
def one_point(ctx):
    """A single point gives the same value as a list of one."""
    t, R, r, P, p = torus(ctx)
    x = ctx.array('x', (3,))
    q = t.quartic(x)
    q1 = t.quartic(x[None, :])
    ctx.ensure('same value', ctx.eq(q, q1[0]))


@contract('P21', 'inverse', timeout=60)
def inverse(ctx):
    """Converting a point on the torus back gives the parameters it was made from
    (as angles; phi is free where the torus meets its axis)."""
    N = ctx.dim('N')
    t, R, r, P, p = torus(ctx)
    th, ph = angles(ctx, N)
    x = ctx.hom(place(p, local(ctx, R, r, th, ph)), 1)
    valid = ctx.choose('intersectvalid', [True, False, 'local'])
    if valid == 'local':
        th1, ph1 = t.xyzw2parametric(ctx.hom(local(ctx, R, r, th, ph), 1), transform=False)
    else:
        th1, ph1 = t.xyzw2parametric(x, intersectvalid=valid)
    c, s = ctx.np.cos, ctx.np.sin
    ctx.ensure('cos theta', ctx.eq(c(th1), c(th), tol=1e-5))
    ctx.ensure('sin theta', ctx.eq(s(th1), s(th), tol=1e-5))
    f = R + r * c(th)
    axis = ctx.eq(f, 0., tol=0.)
    ok = ctx.np.abs(f) > .01 if ctx.mode == 'conc' else ctx.np.not_equal(f, 0)
    ctx.ensure('cos phi', ctx.implies(ok, ctx.eq(c(ph1), c(ph), tol=1e-4)))
    ctx.ensure('sin phi', ctx.implies(ok, ctx.eq(s(ph1), s(ph), tol=1e-4)))


@contract('P21', 'not_on_torus')
def not_on_torus(ctx):
    """Points away from the surface have no parameters."""
    N = ctx.dim('N', nonempty=True)
    t, R, r, P, p = torus(ctx)
    th, ph = angles(ctx, N)
    s = ctx.array('s', (N,), .1, .9)
    # inside the tube: closer to the circle than r
    x = ctx.hom(place(p, local(ctx, R, s * r, th, ph)), 1)
    ctx.requires(ctx.le(r, R))
    q = t.quartic(x[:, :3])
    ctx.ensure('implicit form is negative inside', ctx.lt(q, 0.))


@contract('P21', 'normal')
def normal(ctx):
    """The normal is the outward unit vector perpendicular to both tangents of
    the parametric surface, moved with the torus; from parameters and from points."""
    N = ctx.dim('N')
    t, R, r, P, p = torus(ctx)
    th, ph = angles(ctx, N)
    c, s = ctx.np.cos, ctx.np.sin
    n0 = ctx.np.stack([c(th) * c(ph), s(th), c(th) * s(ph)], axis=-1)
    want = np.dot(n0, p['R'].T)
    f = R + r * c(th)
    if ctx.choose('from', ['parameters', 'points']) == 'parameters':
        n = t.normal_parametric(th, ph)
        ctx.ensure('outward normal', ctx.alltrue(ctx.eq(n[:, :3], want), axis=1))
    else:
        n = t.normal(t.parametric(th, ph))
        ok = ctx.np.abs(f) > .01 if ctx.mode == 'conc' else ctx.np.not_equal(f, 0)
        for i in range(3):
            ctx.ensure('outward normal', ctx.implies(ok, ctx.eq(n[:, i], want[:, i], tol=1e-4)))
    ctx.shape_is('shape', n, (N, 4))
    ctx.ensure('a direction', ctx.eq(n[:, 3], 0.))
    ctx.ensure('unit length', ctx.eq((n[:, :3]**2).sum(axis=-1), 1.))
    dth = np.dot(ctx.np.stack([-r * s(th) * c(ph), r * c(th), -r * s(th) * s(ph)], axis=-1), p['R'].T)
    dph = np.dot(ctx.np.stack([-f * s(ph), 0. * f, f * c(ph)], axis=-1), p['R'].T)
    ctx.lemma('perpendicular to the circle', ctx.eq((want * dth).sum(axis=-1), 0., tol=1e-6))
    ctx.lemma('perpendicular to the rotation', ctx.eq((want * dph).sum(axis=-1), 0., tol=1e-6))
    ctx.raises('parameters on a grid', ValueError, t.normal_parametric, th[:, None], ph[:, None])
    ctx.raises('one point', ValueError, t.normal, ctx.array('one', (4,)))


@contract('P21', 'surface', sizes='grids of 1x1 to 2x3 points')
def surface(ctx):
    """The surface for display is the parametric form on the grid of parameters."""
    t, R, r, P, p = torus(ctx)
    n, m = ctx.choose('grid', [(1, 1), (2, 3), (3, 2)])
    th, ph = ctx.array('theta', (n,), -3.1, 6.2), ctx.array('phi', (m,), -3.1, 6.2)
    x = t.parametric_surface(th, ph, {})
    ctx.ensure('grid', x.shape == (n, m, 4))
    for i in range(n):
        for j in range(m):
            w = place(p, local(ctx, R, r, th[i], ph[j]))
            ctx.ensure('point', ctx.alltrue(ctx.eq(x[i, j, :3], w, tol=1e-6), axis=0))
            ctx.ensure('w', ctx.eq(x[i, j, 3], 1.))
    ctx.raises('two-dimensional parameters', ValueError, t.parametric_surface, th[:, None], ph, {})


class Result(object):
    def __init__(self, x, success):
        self.x = x
        self.success = success


class Found(object):
    """scipy.optimize by contract: a reported success is a root, anything else
    may happen"""
    def __init__(self, ctx):
        self.ctx = ctx

    def root(self, fun, x0, args=(), **kw):
        x = self.ctx.array('k', (1,))
        ok = self.ctx.choose('converged', [True, False])
        if ok:
            y = fun(x, *args)
            self.ctx.requires(self.ctx.eq(y, 0.))
        return Result(x, ok)


@contract('P21', 'solve', conc_s=20)
def solve(ctx):
    """A point found by solving along a line lies on the line and on the torus;
    if none is found there is an error instead of a wrong point."""
    t, R, r, P, p = torus(ctx)
    # any line; for the concrete runs one that starts close to a point on the torus
    th, ph = ctx.scalar('th', -.5, .5), ctx.scalar('ph', -.5, .5)
    off = ctx.scalar('off', -.01, .01)
    v = ctx.array('v', (3,), .5, 1.)
    if ctx.mode == 'conc':
        o = place(p, local(ctx, R, r, th, ph)) + off * min(r, R) * v
    else:
        o = ctx.array('o', (3,))
    form = ctx.choose('coordinates', ['global', 'local'])
    ctx.stub(mod, 'optimize', Found(ctx))
    if form == 'local' and ctx.mode == 'conc':
        o = local(ctx, R, r, th, ph) + off * min(r, R) * v
    try:
        x = t.solve_quartic(ctx.hom(o, 1), ctx.hom(v, 0)) if form == 'global' else t.solve_quartic(ctx.hom(o, 1), ctx.hom(v, 0), transform=False)
    except Exception as e:
        # the lines of the concrete runs start close to the torus
        ctx.ensure('no result when nothing was found',
                   ctx.mode == 'sym' and type(e) is Exception and 'not found' in str(e))
        return
    x = x.reshape((4,))
    ctx.ensure('a point', ctx.eq(x[3], 1.))
    d = x[:3] - o
    for i, j in ((0, 1), (0, 2), (1, 2)):
        ctx.ensure('on the line', ctx.eq(d[i] * v[j], d[j] * v[i], tol=1e-5))
    q = t.quartic(x[:3][None, :], transform=form == 'global')
    ctx.ensure('on the torus', ctx.eq(q / (R + r)**4, 0., tol=1e-4))


@contract('P21', 'radius_angle', conc_s=20)
def radius_angle(ctx):
    """The point for radius and angle has these polar coordinates in the local
    plane perpendicular to the optical axis and is on the torus."""
    t, R, r, P, p = torus(ctx)
    ctx.stub(mod, 'optimize', Found(ctx))
    rad = ctx.scalar('radius', 0., .3) * r
    a = ctx.scalar('angle', -3.1, 6.2)
    start = [R + .98 * r, R + 1.0 * r]
    try:
        x = t.xyz_from_radiusangle(rad, a, start)
    except Exception as e:
        # the lines of the concrete runs start close to the torus
        ctx.ensure('no result when nothing was found',
                   ctx.mode == 'sym' and type(e) is Exception and 'not found' in str(e))
        return
    x = x.reshape((3,))
    loc = np.dot(x - p['t'], p['R'])
    ctx.ensure('y', ctx.eq(loc[1], rad * ctx.np.cos(a), tol=1e-5))
    ctx.ensure('z', ctx.eq(loc[2], rad * ctx.np.sin(a), tol=1e-5))
    q = t.quartic(x[None, :])
    ctx.ensure('on the torus', ctx.eq(q / (R + r)**4, 0., tol=1e-4))


@contract('P21', 'tilted_torus')
def tilted(ctx):
    """A tilted torus contains focal point and on-axis grating, the focal point
    is on its symmetry axis, and the two angles are the ones asked for."""
    f = ctx.scalar('f', 1., 1e2)
    # alpha and beta are given by their difference
    al, dl = ctx.scalar('alpha', -.7, .7), ctx.scalar('delta', -.7, .7)
    be = al + dl
    ctx.requires(ctx.lt(.5, ctx.np.cos(al)))
    R, r, P = design_tilted_torus(f, al, be)
    t = RowlandTorus(R=R, r=r, pos4d=P)
    q = t.quartic(ctx.np.array([[0. * f, 0., 0.], [f, 0., 0.]]))
    ctx.ensure('focal point on the torus', ctx.eq(q[0] / f**4, 0., tol=1e-6))
    ctx.ensure('grating on the torus', ctx.eq(q[1] / f**4, 0., tol=1e-6))
    Rm, x = P[:3, :3], P[:3, 3]
    F = np.dot(-x, Rm)
    ctx.ensure('focal point on the symmetry axis', ctx.all(ctx.eq(F[0], 0., tol=1e-6), ctx.eq(F[2], 0., tol=1e-6)))
    C = np.dot(Rm, ctx.np.array([R, 0., 0.])) + x
    ctx.ensure('angle to the centre of the circle', ctx.all(ctx.eq(f - C[0], r * ctx.np.cos(al), tol=1e-6), ctx.eq(C[1], r * ctx.np.sin(al), tol=1e-6), ctx.eq(C[2], 0.)))
    H = np.dot(Rm, ctx.np.array([0., -F[1], 0.])) + x
    ctx.ensure('angle to the hinge', ctx.eq((f - H[0]) * ctx.np.sin(be), H[1] * ctx.np.cos(be), tol=1e-6))


@contract('P21', 'double_torus')
def double(ctx):
    """Two mirrored tori through the focal point, the on-axis grating and their
    own second focus, that of the detector through both foci; channels are shifted copies."""
    f = ctx.scalar('f', 1e2, 1e3)
    d = ctx.scalar('d', 1., 50.)
    R = ctx.scalar('Rt', 50., 1e3)
    g = double_rowland_from_channel_distance(d, R, f)

    def on(name, k, *pts):
        q = g[k].quartic(ctx.np.array([[a + 0. * f, b + 0. * f, 0.] for a, b in pts]))
        for i in range(len(pts)):
            ctx.ensure(name, ctx.eq(q[i] / (R + f)**4, 0., tol=1e-6))
    on('central', 'rowland_central', (0., 0.), (f, 0.), (0., d))
    on('mirrored', 'rowland_central_m', (0., 0.), (f, 0.), (0., -d))
    on('detector', 'rowland_detector', (0., d / 2), (0., -d / 2), (f, -d / 2))
    ctx.ensure('input kept', g['d_BF'] is d and g['f'] is f)
    for k in ('rowland_central', 'rowland_central_m', 'rowland_detector'):
        ctx.ensure('radii', ctx.all(ctx.eq(g[k].R, R), ctx.eq(4 * g[k].r**2, f**2 + d**2)))
    off = {k: [ctx.scalar('%s%d' % (k, i), -9., 9.) for i in range(3)] for k in ('1', '1m', '2m', '3', '3m')}
    keys = ctx.choose('order', [['1', '1m', '2m', '3', '3m'], ['3m', '3', '2m', '1m', '1']])
    add_offset_double_rowland_channels(g, {k: off[k] for k in keys})
    for k in keys:
        sgn = .5 if 'm' in k else -.5
        base = g['rowland_central_m' if 'm' in k else 'rowland_central']
        ax = g['pos_opt_ax'][k]
        want = ctx.np.array([off[k][0], sgn * d + off[k][1], off[k][2]])
        ctx.ensure('optical axis', ctx.alltrue(ctx.eq(ax[:3], want), axis=0))
        t = g['rowland_' + k]
        ctx.ensure('radii', ctx.all(ctx.eq(t.R, base.R), ctx.eq(t.r, base.r)))
        ctx.ensure('shifted', ctx.alltrue(ctx.eq(t.pos4d[:3, 3], base.pos4d[:3, 3] + want), axis=0))
        ctx.ensure('same orientation', ctx.alltrue(ctx.alltrue(ctx.eq(t.pos4d[:3, :3], base.pos4d[:3, :3]), axis=1), axis=0))
