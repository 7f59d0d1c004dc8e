"""P12: scattering turns each ray by exactly the angles drawn."""
import numpy as np
import astropy.units as u
from marxsvc.contract import contract
from marxsvc.photons import photons, unchanged, any_intersection, transport_by_contract, transported
from marxs.optics import RadialMirrorScatter, RandomGaussianScatter
from marxs.optics import scatter

ARCSEC = np.pi / 180. / 3600.


def dot(a, b):
    return np.sum(a * b, axis=-1)


@contract('P12', 'radial')
def radial(ctx):
    """RadialMirrorScatter: in the plane of incidence by the in-plane angle,
    then around the radial direction by the perpendicular angle; both are
    recorded and drawn with the width given; the result is a unit vector."""
    N = ctx.dim('N')
    P, pt = ctx.placement('P', zoom=np.array([1., 2., 3.]))
    F = ctx.frame('F', (N,))            # columns: out of plane, radial, tangential
    th = ctx.array('theta', (N, 1), 0.01, 3.13)
    rho = ctx.array('rho', (N, 1), 0.5, 50.)
    ctx.requires(ctx.np.sin(th) > 1e-3)
    ph, old = photons(ctx, N, pol=False)
    old['dir'] = ctx.hom(ctx.np.cos(th) * F[..., 1] + ctx.np.sin(th) * F[..., 2], 0)
    old['pos'] = ctx.hom(pt['t'] + rho * F[..., 1], 1)
    old['polarization'] = ctx.hom(F[..., 0], 0)
    ph['dir'], ph['pos'], ph['polarization'] = old['dir'], old['pos'], old['polarization']
    a, b = ctx.choose('sigma', [(0., 0.), (50., 0.), (0., 70.), (50., 70.)])
    el = RadialMirrorScatter(pos4d=P, inplanescatter=a * u.arcsec, perpplanescatter=b * u.arcsec)
    hit, ip, il = any_intersection(ctx, el, N, old)
    calls = transport_by_contract(ctx, scatter)
    d = ctx.draws()
    out = el(ph)
    h = ctx.cond(hit)
    unchanged(ctx, out, old, ['dir', 'pos', 'polarization', 'probability', 'energy'], ~h, tag='miss: ')
    if 'inplanescatter' not in out.colnames:
        ctx.ensure('angles are recorded whenever there is a hit', ~h)
        return
    al, be = ctx.column(out, 'inplanescatter'), ctx.column(out, 'perpplanescatter')
    new = ctx.column(out, 'dir')
    A = dot(new[:, :3], F[..., 1])
    B = dot(new[:, :3], F[..., 0])
    ct, st = ctx.np.cos(th)[:, 0], ctx.np.sin(th)[:, 0]
    ctx.ensure('stays a direction', ctx.implies(h, ctx.eq(new[:, 3], 0.)))
    ctx.ensure('unit length', ctx.implies(h, ctx.eq(dot(new, new), 1.)))
    ctx.ensure('in-plane angle', ctx.implies(h, ctx.eq((A - ct * ctx.np.cos(al)) ** 2, st ** 2 * ctx.np.sin(al) ** 2)))
    ctx.ensure('perpendicular angle', ctx.implies(h, ctx.eq(B ** 2, (1 - A ** 2) * ctx.np.sin(be) ** 2)))
    if a == 0:
        ctx.ensure('no in-plane scatter', ctx.implies(h, ctx.eq(al, 0.)))
    if b == 0:
        ctx.ensure('no perpendicular scatter', ctx.implies(h, ctx.eq(be, 0.)))
    if a == 0 and b == 0:
        ctx.ensure('zero width leaves the ray unchanged', ctx.implies(h, ctx.alltrue(ctx.eq(new, old['dir']), axis=1)))
    d.need(z=(a > 0) + (b > 0))
    zs = list(d.z)
    for s, ang, n in ((a, al, 'in-plane'), (b, be, 'perpendicular')):
        if s:
            ctx.ensure(n + ' angle has the width asked for', ctx.eq(ang[hit], s * ARCSEC * zs.pop(0)))
    transported(ctx, calls, out, old, hit, h)


AXES = ['off x', 'close to x']


def gauss_photons(ctx, N, axis):
    """photons with any direction; those close to x take another branch.  The
    direction is given in polar coordinates around the x axis in one case and
    around the y axis in the other."""
    near = axis != 'off x'
    th = ctx.array('theta', (N,), 0., np.pi, gen=(lambda r, s: np.pi / 2 + r.choice([0., 1e-3]) * r.normal(size=s)) if near else None)
    ph = ctx.array('phi', (N,), -np.pi, np.pi, gen=(lambda r, s: r.choice([0., np.pi]) + r.choice([0., 1e-3]) * r.normal(size=s)) if near else None)
    ps = ctx.array('psi', (N, 1), -np.pi, np.pi)
    st, ct, sp, cp = ctx.np.sin(th), ctx.np.cos(th), ctx.np.sin(ph), ctx.np.cos(ph)
    ctx.requires(st > 1e-3)
    z = 0. * st
    order = (lambda x, y, w: ctx.np.array([y, x, w]).T) if near else (lambda x, y, w: ctx.np.array([x, y, w]).T)
    d, e1, e2 = order(ct, st * cp, st * sp), order(-st, ct * cp, ct * sp), order(z, -sp, cp)
    if near:
        ctx.requires(~(abs(d[:, 0]) < 0.99999))
    else:
        ctx.requires(abs(d[:, 0]) < 0.99999)
    tab, old = photons(ctx, N, pol=False)
    old['dir'] = ctx.hom(d, 0)
    old['polarization'] = ctx.hom(ctx.np.cos(ps) * e1 + ctx.np.sin(ps) * e2, 0)
    tab['dir'], tab['polarization'] = old['dir'], old['polarization']
    return tab, old


@contract('P12', 'gaussian')
def gaussian(ctx):
    """RandomGaussianScatter: the angle between old and new direction is the
    recorded one, drawn with the width given or returned by the user's function
    for that photon; the result is a unit vector."""
    N = ctx.dim('N')
    ph, old = gauss_photons(ctx, N, ctx.choose('axis', AXES))
    mode = ctx.choose('scatter', ['number', 'function'])
    P, pt = ctx.placement('P', zoom=np.array([1., 2., 3.]))
    given = []
    if mode == 'number':
        sc = 30. * u.arcsec
    else:
        f = ctx.userfunc('width', -1., 1.)

        def sc(photons, intersect, interpos, intercoos):
            a = f(photons['energy'][intersect])
            given.append((photons, interpos, intercoos))
            return Angle(a)
    el = RandomGaussianScatter(pos4d=P, scatter=sc)
    hit, ip, il = any_intersection(ctx, el, N, old)
    calls = transport_by_contract(ctx, scatter)
    d = ctx.draws()
    out = el(ph)
    h = ctx.cond(hit)
    unchanged(ctx, out, old, ['dir', 'pos', 'polarization', 'probability', 'energy'], ~h, tag='miss: ')
    if 'scatter' not in out.colnames:
        ctx.ensure('angles are recorded whenever there is a hit', ~h)
        return
    al = ctx.column(out, 'scatter')
    new = ctx.column(out, 'dir')
    ctx.ensure('stays a direction', ctx.implies(h, ctx.eq(new[:, 3], 0.)))
    ctx.ensure('unit length', ctx.implies(h, ctx.eq(dot(new, new), 1.)))
    ctx.ensure('scattered by the recorded angle', ctx.implies(h, ctx.eq(dot(new, old['dir']), ctx.np.cos(al))))
    if mode == 'number':
        d.need(z=1)
        ctx.ensure('angle has the width asked for', ctx.eq(al[hit], 30. * ARCSEC * d.z[0]))
    else:
        ctx.ensure('angle is that of the function for this photon', ctx.implies(h, ctx.eq(al, f(old['energy']))))
    transported(ctx, calls, out, old, hit, h)


class Angle(object):
    """An angle quantity in radian as the user's function returns it."""
    def __init__(self, v):
        self.value = v
        self.unit = u.rad

    def to(self, unit):
        return Angle(self.value * u.rad.to(unit))

    def to_value(self, unit):
        return self.to(unit).value

    def __eq__(self, o):
        return False


@contract('P12', 'gaussian_azimuth')
def azimuth(ctx):
    """RandomGaussianScatter: the direction of the scatter is turned around the
    ray by the second random number; all azimuths are equally likely."""
    N = ctx.dim('N')
    P, pt = ctx.placement('P', zoom=np.array([1., 2., 3.]))
    axis = ctx.choose('axis', AXES)
    ph, old = gauss_photons(ctx, N, axis)
    ph2 = ctx.table(N, dict(old))
    el = RandomGaussianScatter(pos4d=P, scatter=3000. * u.arcsec)
    hit, ip, il = any_intersection(ctx, el, N, old)
    transport_by_contract(ctx, scatter, check=False)
    d = ctx.draws()
    out = el(ph)
    if 'scatter' not in out.colnames:
        return
    d.need(z=1, u=1)
    d.replay_z = [None, d.z[0]]
    out2 = el(ph2)
    d.need(z=2, u=2)
    al = ctx.column(out, 'scatter')
    ctx.ensure('same angle drawn again', ctx.eq(al[hit], ctx.column(out2, 'scatter')[hit]))
    n1, n2 = ctx.column(out, 'dir')[hit], ctx.column(out2, 'dir')[hit]
    T1 = n1 - dot(n1, old['dir'][hit])[:, None] * old['dir'][hit]
    T2 = n2 - dot(n2, old['dir'][hit])[:, None] * old['dir'][hit]
    s2 = ctx.np.sin(al[hit]) ** 2
    c1, c2, s1, s2_ = [f(2 * np.pi * x) for f in (ctx.np.cos, ctx.np.sin) for x in (d.u[0], d.u[1])]
    ctx.ensure('turned around the ray by the difference of the random numbers',
               ctx.eq(dot(T1, T2), s2 * (c1 * c2 + s1 * s2_), tol=1e-6))


@contract('P12', 'gaussian_zero')
def zero(ctx):
    """RandomGaussianScatter of zero width leaves every ray unchanged."""
    N = ctx.dim('N')
    P, pt = ctx.placement('P', zoom=np.array([1., 2., 3.]))
    ph, old = gauss_photons(ctx, N, ctx.choose('axis', AXES))
    el = RandomGaussianScatter(pos4d=P, scatter=ctx.choose('width', [0. * u.arcsec, 0. * u.rad, 0. * u.deg, 0.]))
    hit, ip, il = any_intersection(ctx, el, N, old)
    out = el(ph)
    unchanged(ctx, out, old, ['dir', 'polarization', 'probability', 'energy'], ctx.cond(hit) | ~ctx.cond(hit))
