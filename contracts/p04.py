"""P04: intersection of rays with (partial) cylinders."""
import numpy as np
from marxsvc.contract import contract
import marxs.math.utils as mu
from marxs.math import geometry
from marxs.math.geometry import Cylinder


def between(ctx):
    """contract of angle_between (P01): membership in the cyclic interval.  The
    caller is checked against any such predicate, whatever its meaning."""
    if ctx.mode == 'conc':
        return mu.angle_between

    def ab(phi, lo, hi):
        return ctx.predicate('angle_between', phi, lo, hi)
    ctx.stub(geometry, 'angle_between', ab)
    return ab


def setup(ctx, part):
    N = ctx.dim('N')
    z2 = ctx.array('zoom', (2,), 0.1, 30.)
    z = ctx.np.array([z2[0], z2[0], z2[1]])
    P, pt = ctx.placement('P', zoom=z)
    kw = {'pos4d': P}
    lo, hi = -ctx.np.pi, ctx.np.pi
    if part:
        lo = ctx.scalar('lo', -np.pi, np.pi)
        hi = ctx.scalar('hi', -np.pi, np.pi)
        kw['phi_lim'] = [lo, hi]
    ab = between(ctx)
    cyl = Cylinder(kw)
    # a ray in local coordinates; the global one is its image
    q = ctx.array('q', (N, 3), gen=lambda r, s: r.normal(size=s) * r.choice([0.5, 1., 3.], size=(s[0], 1)))
    e = ctx.array('e', (N, 3), gen=lambda r, s: r.normal(size=s) - 0.0)
    a = e[:, 0] ** 2 + e[:, 1] ** 2
    b = q[:, 0] * e[:, 0] + q[:, 1] * e[:, 1]
    c = q[:, 0] ** 2 + q[:, 1] ** 2 - 1.
    disc = b * b - a * c
    if ctx.mode == 'conc':
        ctx.requires((a > 1e-2) & (abs(disc) > 1e-3))
    else:
        # grazing rays (one double point) are the subject of 'grazing_ray'
        ctx.requires(~ctx.eq(a, 0.) & ~ctx.eq(disc, 0.))
    R, t = pt['R'], pt['t']
    pos = ctx.hom(t + np.dot(q * z, R.T), 1)
    d = ctx.hom(np.dot(e * z, R.T), 0)
    return N, ab, cyl, z, R, t, lo, hi, q, e, a, b, disc, pos, d


def check(ctx, part):
    """A ray hits iff one of the points where it meets the tube lies forward of
    its origin, within the height and the angular range; the nearest such point
    is reported, in global coordinates and as (angle, height)."""
    N, ab, cyl, z, R, t, lo, hi, q, e, a, b, disc, pos, d = setup(ctx, part)
    hit, ip, il = cyl.intersect(d, pos)
    ctx.shape_is('hit shape', hit, (N,))
    ctx.shape_is('point shape', ip, (N, 4))
    ctx.shape_is('local shape', il, (N, 2))
    with np.errstate(all='ignore'):
        s = ctx.np.sqrt(disc)
        real = ctx.le(0., disc)
        sol = []
        for k in ((-b + s) / a, (-b - s) / a):
            pt = q + k[:, None] * e
            phi = ctx.np.arctan2(pt[:, 1], pt[:, 0])
            ok = ctx.all(real, ctx.le(0., k), ctx.le(abs(pt[:, 2]), 1.), ctx.cond(ab(phi, lo, hi)))
            sol.append((k, pt, phi, ok))
    (k1, p1, f1, h1), (k2, p2, f2, h2) = sol
    if ctx.mode == 'sym':
        ctx.lemma('order of the roots', ctx.implies(real, k2 < k1))
    ctx.ensure('far intersection point alone', ctx.implies(h1 & ~h2, hit))
    ctx.ensure('near intersection point', ctx.implies(h2, hit))
    ctx.ensure('nothing else hits', ctx.implies(hit, h1 | h2))
    only = ctx.cond(hit)
    sel = [(h2, p2, f2), (h1 & ~h2, p1, f1)]
    tol = 1e-5
    for nm, (h, p, f) in zip(('near', 'far'), sel):
        ctx.ensure(nm + ' point reported', ctx.implies(h, ctx.alltrue(ctx.eq(ip, ctx.hom(t + np.dot(p * z, R.T), 1), tol=tol), axis=1)))
        ctx.ensure(nm + ' angle reported', ctx.implies(h, ctx.eq(il[:, 0], f, tol=tol)))
        ctx.ensure(nm + ' height reported', ctx.implies(h, ctx.eq(il[:, 1], p[:, 2] * z[2], tol=tol)))
    ctx.ensure('miss gives NaN', ctx.implies(~only, ctx.alltrue(ctx.isnan(ip[:, :3]), axis=1)))
    ctx.ensure('miss gives NaN local', ctx.implies(~only, ctx.alltrue(ctx.isnan(il), axis=1)))


@contract('P04', 'tube_default_limits', timeout=30.)
def full_tube(ctx):
    check(ctx, False)


@contract('P04', 'tube_given_limits', timeout=30.)
def partial_tube(ctx):
    check(ctx, True)


full_tube.__doc__ = partial_tube.__doc__ = check.__doc__


@contract('P04', 'hit_point_on_tube', timeout=30.)
def on_tube(ctx):
    """Every reported point lies on the tube wall and on the forward ray."""
    N, ab, cyl, z, R, t, lo, hi, q, e, a, b, disc, pos, d = setup(ctx, False)
    hit, ip, il = cyl.intersect(d, pos)
    loc = np.dot(ip[:, :3] - t, R) / z
    ctx.ensure('on tube', ctx.implies(hit, ctx.eq(loc[:, 0] ** 2 + loc[:, 1] ** 2, 1., tol=1e-5)))
    ctx.ensure('on ray', ctx.implies(hit, ctx.alltrue(ctx.eq(np.cross(loc - q, e), 0., tol=1e-5), axis=1)))


@contract('P04', 'grazing_ray', timeout=30., conc=False)
def grazing(ctx):
    """A ray that touches the tube in a single point hits iff that point is
    forward and inside the limits, and that point is reported."""
    N = ctx.dim('N')
    z2 = ctx.array('zoom', (2,), 0.1, 30.)
    z = ctx.np.array([z2[0], z2[0], z2[1]])
    P, pt = ctx.placement('P', zoom=z)
    ab = between(ctx)
    cyl = Cylinder({'pos4d': P})
    f = ctx.array('f', (N,), -3., 3.)
    h = ctx.array('h', (N,))
    k = ctx.array('k', (N,))
    al = ctx.array('al', (N,), 0., 3., (True, False))
    be = ctx.array('be', (N,))
    c, s = ctx.np.cos(f), ctx.np.sin(f)
    p = ctx.np.stack([c, s, h], axis=-1)
    e = ctx.np.stack([-s * al, c * al, be], axis=-1)
    q = p - k[:, None] * e
    R, t = pt['R'], pt['t']
    hit, ip, il = cyl.intersect(ctx.hom(np.dot(e * z, R.T), 0), ctx.hom(t + np.dot(q * z, R.T), 1))
    phi = ctx.np.arctan2(s, c)
    spec = ctx.all(ctx.le(0., k), ctx.le(abs(h), 1.), ctx.cond(ab(phi, -ctx.np.pi, ctx.np.pi)))
    ctx.ensure('hit', ctx.iff(spec, hit))
    ctx.ensure('point', ctx.implies(hit, ctx.alltrue(ctx.eq(ip, ctx.hom(t + np.dot(p * z, R.T), 1)), axis=1)))
    ctx.ensure('height', ctx.implies(hit, ctx.eq(il[:, 1], h * z[2])))
    ctx.ensure('angle', ctx.implies(hit, ctx.eq(il[:, 0], phi)))


@contract('P04', 'needs_directions')
def needs_directions(ctx):
    """Something that is not a direction is refused."""
    P, pt = ctx.placement('P', zoom=np.array([2., 2., 3.]))
    cyl = Cylinder({'pos4d': P})
    p = ctx.hom(ctx.array('p', (2, 3)), 1)
    ctx.raises('ValueError', ValueError, cyl.intersect, p, p)


@contract('P04', 'surface_grid')
def surface(ctx):
    """The parametric surface lies on the tube wall at the given angle and
    height."""
    z2 = ctx.array('zoom', (2,), 0.1, 30.)
    z = ctx.np.array([z2[0], z2[0], z2[1]])
    P, pt = ctx.placement('P', zoom=z)
    cyl = Cylinder({'pos4d': P})
    phi = ctx.array('phi', (2,), -3., 3.)
    h = ctx.array('h', (3,))
    X = cyl.parametric_surface(phi, h)
    ctx.shape_is('shape', X, (2, 3, 4))
    for i in range(2):
        for j in range(3):
            c, s = ctx.np.cos(phi[i]), ctx.np.sin(phi[i])
            loc = ctx.np.array([c * z[0], s * z[0], h[j]])
            ctx.ensure('point %d %d' % (i, j), ctx.alltrue(ctx.eq(X[i, j], ctx.hom(pt['t'] + np.dot(pt['R'], loc), 1), tol=1e-6), axis=0))
    ctx.raises('2d input', ValueError, cyl.parametric_surface, ctx.np.array([phi]), h)
    ctx.ensure('radius', ctx.eq(cyl['R'], z[0]))


@contract('P04', 'surface_default')
def surface_default(ctx):
    """Without given angles or heights the parametric surface is the tube in its
    own limits, from one end to the other."""
    z2 = ctx.array('zoom', (2,), 0.1, 30.)
    z = ctx.np.array([z2[0], z2[0], z2[1]])
    P, pt = ctx.placement('P', zoom=z)
    lim = [ctx.scalar('phi0', -3., 0.), ctx.scalar('phi1', .1, 3.)]
    cyl = Cylinder({'pos4d': P, 'phi_lim': lim})
    n = ctx.choose('points', [2, 3])
    cyl.n_points = n
    how = ctx.choose('given', ['none', 'angle', 'height'])
    kw = {}
    phi = [lim[0] + (lim[1] - lim[0]) * i / (n - 1) for i in range(n)]
    h = [-z[2], z[2]]
    if how == 'angle':
        a = ctx.array('phi', (n,), -3., 3.)
        kw, phi = {'phi': a}, [a[i] for i in range(n)]
    elif how == 'height':
        b = ctx.array('h', (2,))
        kw, h = {'z': b}, [b[0], b[1]]
    X = cyl.parametric_surface(**kw)
    if not ctx.shape_is('shape', X, (n, 2, 4)):
        return
    for i in range(n):
        for j in range(2):
            loc = ctx.np.array([ctx.np.cos(phi[i]) * z[0], ctx.np.sin(phi[i]) * z[0], h[j]])
            ctx.ensure('point', ctx.alltrue(ctx.eq(X[i, j], ctx.hom(pt['t'] + np.dot(pt['R'], loc), 1), tol=1e-6), axis=0))


@contract('P04', 'limits_not_shared')
def limits(ctx):
    """Angular limits of one tube do not leak into another."""
    l = ctx.array('l', (2,), -3., 3.)
    before = np.array(Cylinder.coos_limits[0])
    a = Cylinder({'phi_lim': l})
    b = Cylinder({})
    ctx.ensure('own limits', ctx.alltrue(ctx.eq(a.coos_limits[0], l), axis=0))
    ctx.ensure('default limits', ctx.alltrue(ctx.eq(b.coos_limits[0], np.array([-np.pi, np.pi])), axis=0))
    ctx.ensure('class limits', ctx.alltrue(ctx.eq(Cylinder.coos_limits[0], before), axis=0))
