"""P16: sky pointing is one fixed rotation of the sky."""
import numpy as np
import astropy.units as u
from marxsvc.contract import contract
from marxs.source import FixedPointing, JitterPointing
from marxs.source import pointing as mod


def axes(ctx, lon, lat):
    """direction to a position on the sky and the directions to the North and to the East there"""
    n = ctx.np
    cl, sl, cb, sb = n.cos(lon), n.sin(lon), n.cos(lat), n.sin(lat)
    z = 0. * lon
    return n.stack([cb * cl, cb * sl, sb], axis=-1), n.stack([-sb * cl, -sb * sl, cb], axis=-1), n.stack([-sl, cl, z], axis=-1)


def pointing(ctx, name='p'):
    """Arbitrary pointing, with the axes of the telescope on the sky: x axis to the
    target, z axis at position angle roll there, y completes the right-handed system"""
    lon, lat = ctx.scalar(name + '.lon', 0., 6.28), ctx.scalar(name + '.lat', -1.57, 1.57)
    roll = ctx.scalar(name + '.roll', -6.3, 6.3)
    X, N, E = axes(ctx, lon, lat)
    c, s = ctx.np.cos(roll), ctx.np.sin(roll)
    return ctx.sky(lon, lat), roll, ctx.np.stack([X, c * E - s * N, c * N + s * E])


def photons_sky(ctx, N, pole=False):
    lon = ctx.array('ph.lon', (N,), 0., 6.28)
    lat = ctx.array('ph.lat', (N,), -1.57 if pole else -1.5, 1.57 if pole else 1.5)
    return lon, lat


def transform(ctx, M, F, v):
    """sky vector -> instrument: M turns into the telescope system, F into the user's"""
    return np.dot(np.dot(v, M.T), F.T)


def placed(ctx, ref):
    """a pointing with or without reference transformation"""
    c, roll, M = pointing(ctx)
    kw, F = {}, np.eye(3)
    case = ctx.choose('kind', ['rad', 'deg', 'default roll']) if not ref else 'ref'
    if ref:
        F = ctx.frame('ref')
        kw['reference_transform'] = ctx.np.concatenate([ctx.np.concatenate([F, np.zeros((3, 1))], axis=1), np.array([[0., 0., 0., 1.]])])
    if case == 'default roll':
        M = ctx.np.stack([M[0], ctx.np.cos(roll) * M[1] + ctx.np.sin(roll) * M[2], ctx.np.cos(roll) * M[2] - ctx.np.sin(roll) * M[1]])
    else:
        kw['roll'] = roll * 180. / np.pi * u.deg if case == 'deg' else roll * u.rad
    return FixedPointing(coords=c, **kw), M, F


@contract('P16', 'direction')
def direction(ctx):
    """Rays come from their source, in a system with the x axis to the target
    and the z axis at position angle roll."""
    N = ctx.dim('N')
    pt, M, F = placed(ctx, ctx.choose('ref', [False, True]))
    lon, lat = photons_sky(ctx, N, True)
    t = ctx.array('t', (N,), 0., 1e5)
    d = pt.photons_dir(ctx.sky(lon, lat), t)
    ctx.shape_is('shape', d, (N, 4))
    s = axes(ctx, lon, lat)[0]
    ctx.ensure('direction', ctx.alltrue(ctx.eq(d[:, :3], -transform(ctx, M, F, s)), axis=1))
    ctx.ensure('not a point', ctx.eq(d[:, 3], 0.))


@contract('P16', 'rotation')
def rotation(ctx):
    """The map from the sky to ray directions keeps lengths and angles, maps the
    target onto the optical axis, and is right-handed."""
    pt, M, F = placed(ctx, ctx.choose('ref', [False, True]))
    lon, lat = ctx.array('lon', (3,), 0., 6.28), ctx.array('lat', (3,), -1.57, 1.57)
    d = pt.photons_dir(ctx.sky(lon, lat), ctx.np.zeros(3))[:, :3]
    s = axes(ctx, lon, lat)[0]
    ctx.ensure('lengths and angular distances', ctx.all(ctx.eq(np.dot(d, d.T), np.dot(s, s.T))))
    det = lambda m: np.dot(m[0], np.cross(m[1], m[2]) if ctx.mode == 'conc' else ctx.np.cross(m[1], m[2]))
    ctx.ensure('orientation is kept', ctx.eq(det(d), -det(s)))
    tl = [pt.coords.ra.rad, pt.coords.dec.rad]
    d = pt.photons_dir(ctx.sky(ctx.np.stack([tl[0]]), ctx.np.stack([tl[1]])), ctx.np.zeros(1))[:, :3]
    ctx.ensure('target on the optical axis', ctx.all(ctx.eq(d, -ctx.np.asarray(F)[:, 0])))


@contract('P16', 'polarization')
def polarization(ctx):
    """The polarization vector is at the polarization angle from North through
    East, perpendicular to the ray."""
    N = ctx.dim('N')
    ref = ctx.choose('ref', [False, True])
    pt, M, F = placed(ctx, ref)
    lon, lat = photons_sky(ctx, N)
    ctx.requires(ctx.cond(ctx.np.cos(lat) > 0.05))
    s, n, e = axes(ctx, lon, lat)
    a = ctx.array('a', (N,), 0., 6.3)
    unit = ctx.choose('unit', ['none', 'rad', 'deg'])
    ang = {'none': a, 'rad': a * u.rad, 'deg': a * 180. / np.pi * u.deg}[unit]
    p = pt.photons_pol(ctx.hom(-transform(ctx, M, F, s), 0), ang, ctx.np.zeros(lon.shape))
    want = ctx.np.cos(a)[:, None] * n + ctx.np.sin(a)[:, None] * e
    p = getattr(p, 'value', p)
    ctx.ensure('polarization', ctx.alltrue(ctx.eq(p[:, :3], transform(ctx, M, F, want)), axis=1))
    ctx.ensure('not a point', ctx.eq(p[:, 3], 0.))
    ctx.ensure('perpendicular to the ray', ctx.eq(np.sum(want * s, axis=1), 0.))
    ctx.ensure('unit length', ctx.eq(np.sum(want * want, axis=1), 1.))


@contract('P16', 'process')
def process(ctx):
    """Photon tables: the columns ra, dec, polangle and time of each photon are
    used, all others are kept."""
    N = ctx.dim('N')
    c, roll, M = pointing(ctx)
    lon, lat = photons_sky(ctx, N)
    d = {'ra': lon * 180. / np.pi, 'dec': lat * 180. / np.pi, 'polangle': ctx.array('a', (N,), 0., 6.3),
         'time': ctx.array('t', (N,), 0., 1e5), 'energy': ctx.array('e', (N,), .1, 10.), 'probability': ctx.array('pr', (N,), 0., 1.)}
    tab = ctx.table(N, dict(d))
    tab['ra'].unit, tab['dec'].unit = u.deg, u.deg
    pt = FixedPointing(coords=c, roll=roll * u.rad)
    calls = []
    pol = ctx.hom(ctx.array('pol', (N, 3)), 0)

    def photons_pol(*a):
        calls.append(a)
        return pol
    pt.photons_pol = photons_pol
    out = pt(tab)
    s = axes(ctx, lon, lat)[0]
    ctx.ensure('direction', ctx.alltrue(ctx.eq(ctx.column(out, 'dir')[:, :3], -transform(ctx, M, np.eye(3), s)), axis=1))
    ctx.ensure('not a point', ctx.eq(ctx.column(out, 'dir')[:, 3], 0.))
    ctx.ensure('polarization calculated once', len(calls) == 1)
    ctx.ensure('for the directions', ctx.alltrue(ctx.eq(calls[0][0], ctx.column(out, 'dir')), axis=1))
    ctx.ensure('for the polarization angles', ctx.eq(calls[0][1], d['polangle']))
    ctx.ensure('polarization', ctx.alltrue(ctx.eq(ctx.column(out, 'polarization'), pol), axis=1))
    for k in d:
        ctx.ensure('column %s is kept' % k, ctx.same(ctx.column(out, k), d[k]))
    for k, v in (('RA', c.ra.deg), ('DEC', c.dec.deg), ('ROLL', roll * 180. / np.pi)):
        for t in ('PNT', 'NOM'):
            ctx.ensure('header %s_%s' % (k, t), ctx.eq(out.meta['%s_%s' % (k, t)][0], v))


@contract('P16', 'jitter')
def jitter(ctx):
    """Jitter turns direction and polarization of a photon by the same rotation
    about an axis perpendicular to the optical axis, by an angle drawn from a
    normal distribution of the width given."""
    N = ctx.dim('N', nonempty=True)
    c, roll, M = pointing(ctx)
    sig = ctx.scalar('sigma', 0., 0.1)
    zero = ctx.choose('jitter', ['none', 'some', 'negative'])
    if zero == 'none':
        sig = 0. * sig
    else:
        ctx.requires(sig > 1e-6)
    pt = JitterPointing(coords=c, roll=roll * u.rad, jitter=(-sig if zero == 'negative' else sig) * u.rad)
    D, P = ctx.array('d', (N, 3)), ctx.array('p', (N, 3))
    cols = {'dir': ctx.hom(D, 0), 'polarization': ctx.hom(P, 0), 'energy': ctx.array('e', (N,), .1, 10.)}
    tab = ctx.table(N, dict(cols))
    ctx.patch(FixedPointing, 'process_photons', lambda self, ph, *a: ph)
    dr = ctx.draws()
    if ctx.mode == 'conc':
        dr.replay_u = [ctx.array('u', (N,), 0., 1.)]
        dr.replay_z = [ctx.array('z', (N,), -3., 3.)]
    out = pt(tab)
    d2, p2 = ctx.column(out, 'dir'), ctx.column(out, 'polarization')
    ctx.ensure('energy is kept', ctx.same(ctx.column(out, 'energy'), cols['energy']))
    if zero == 'none':
        ctx.ensure('same direction', ctx.alltrue(ctx.eq(d2, cols['dir']), axis=1))
        ctx.ensure('same polarization', ctx.alltrue(ctx.eq(p2, cols['polarization']), axis=1))
        return
    dr.need(u=1)
    ctx.ensure('one normal random number for each photon', len(dr.z) == 1)
    # the axis is at a uniformly random angle in the plane perpendicular to x
    b = 2. * np.pi * dr.u[0]
    ang = sig * dr.z[0]
    cb, sb, ca, sa = ctx.np.cos(b), ctx.np.sin(b), ctx.np.cos(ang), ctx.np.sin(ang)

    def turned(v, sign):
        par = sb * v[:, 1] + cb * v[:, 2]
        cross = [sb * v[:, 2] - cb * v[:, 1], cb * v[:, 0], -sb * v[:, 0]]
        k = [0. * par, sb, cb]
        return [ca * v[:, i] + sign * sa * cross[i] + (1 - ca) * par * k[i] for i in range(3)]
    both = []
    for sign in (1., -1.):
        w = [ctx.eq(o[:, i], x) for o, v in ((d2, D), (p2, P)) for i, x in enumerate(turned(v, sign))]
        both.append(ctx.all(*w))
    ctx.ensure('both are turned by the jitter angle', ctx.any(*both))
    ctx.ensure('directions stay directions', ctx.eq(d2[:, 3], 0.))
    ctx.ensure('polarization stays a direction', ctx.eq(p2[:, 3], 0.))


@contract('P16', 'refused')
def refused(ctx):
    """Pointings need a single coordinate; the base class leaves the direction open."""
    lon, lat = ctx.array('lon', (2,), 0., 6.28), ctx.array('lat', (2,), -1.57, 1.57)
    ctx.raises('array of coordinates', ValueError, FixedPointing, coords=ctx.sky(lon, lat))
