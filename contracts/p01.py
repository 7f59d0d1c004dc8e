"""P01: homogeneous coordinates, planes, Pluecker lines, angles."""
import numpy as np
from marxsvc.contract import contract
from marxs.math import utils as mu
from marxs.math import pluecker as pl


@contract('P01', 'e2h_roundtrip')
def e2h_roundtrip(ctx):
    """Euclid -> homogeneous -> Euclid is the identity, w is what was asked."""
    N = ctx.dim('N')
    w = ctx.choose('w', [0, 1])
    e = ctx.array('e', (N, 3))
    h = mu.e2h(e, w)
    ctx.shape_is('shape', h, (N, 4))
    ctx.ensure('xyz kept', ctx.alltrue(ctx.eq(h[:, :3], e), axis=1))
    ctx.ensure('w', ctx.eq(h[:, 3], float(w)))
    back = mu.h2e(h)
    ctx.shape_is('shape back', back, (N, 3))
    ctx.ensure('roundtrip', ctx.alltrue(ctx.eq(back, e), axis=1))


@contract('P01', 'e2h_rejects')
def e2h_rejects(ctx):
    """Only w=0 and w=1 are accepted."""
    w = ctx.scalar('w')
    ctx.requires(~ctx.eq(w, 0.) & ~ctx.eq(w, 1.))
    e = ctx.array('e', (3,))
    ctx.raises('ValueError', ValueError, mu.e2h, e, w)


@contract('P01', 'h2e_scale')
def h2e_scale(ctx):
    """A finite homogeneous point divided by its weight."""
    N = ctx.dim('N')
    h = ctx.array('h', (N, 3))
    w = ctx.array('w', (N,), 0.01, 100.)
    s = ctx.choose('sign', [1., -1.])
    H = ctx.np.concatenate([h, (s * w)[:, None]], axis=1)
    e = mu.h2e(H)
    ctx.shape_is('shape', e, (N, 3))
    # weights within 1e-5 of one count as one
    ctx.ensure('projected', ctx.alltrue(ctx.le(abs(e * (s * w)[:, None] - h), 2e-5 * abs(h)), axis=1))


@contract('P01', 'h2e_mixture')
def h2e_mixture(ctx):
    """A mixture of points and directions is refused."""
    e = ctx.array('e', (2, 3))
    H = ctx.np.concatenate([e, ctx.np.array([[0.], [1.]])], axis=1)
    ctx.raises('ValueError', ValueError, mu.h2e, H)


@contract('P01', 'distance')
def distance(ctx):
    """Distance of homogeneous points is the Euclidean distance."""
    N = ctx.dim('N')
    a, b = ctx.array('a', (N, 3)), ctx.array('b', (N, 3))
    d = mu.distance_point_point(ctx.hom(a, 1), ctx.hom(b, 1))
    ctx.shape_is('shape', d, (N,))
    ctx.ensure('non-negative', ctx.le(0., d))
    ctx.ensure('squared', ctx.eq(d * d, np.sum((a - b) ** 2, axis=1)))


@contract('P01', 'distance_weights')
def distance_weights(ctx):
    """The distance does not depend on the homogeneous weights."""
    a, b = ctx.array('a', (3,)), ctx.array('b', (3,))
    rng = [(0.2, 0.9), (1.1, 5.), (1., 1.), (-3., -0.1)]
    w1 = ctx.scalar('w1', *ctx.choose('range1', rng))
    w2 = ctx.scalar('w2', *ctx.choose('range2', rng))
    d = mu.distance_point_point(ctx.hom(a, 1) * w1, ctx.hom(b, 1) * w2)
    ctx.ensure('squared', ctx.eq(d * d, np.sum((a - b) ** 2), tol=2e-4))


@contract('P01', 'plane_from_point_normal')
def plane(ctx):
    """A plane built from a point and a normal contains the point, has that
    normal with unit length and the same sense."""
    p = ctx.array('p', (3,))
    n = ctx.array('n', (3,))
    ctx.requires(~ctx.eq(np.sum(n * n), 0.))
    P = pl.point_dir2plane(ctx.hom(p, 1), ctx.hom(n, 0))
    ctx.ensure('contains point', ctx.eq(np.dot(P[:3], p) + P[3], 0., tol=1e-6))
    ctx.ensure('unit normal', ctx.eq(np.sum(P[:3] * P[:3]), 1.))
    ctx.ensure('parallel', ctx.alltrue(ctx.eq(np.cross(P[:3], n), 0.), axis=0))
    ctx.ensure('same sense', ctx.le(0., np.dot(P[:3], n)))


@contract('P01', 'line_plane')
def line_plane(ctx):
    """Where a line given by point and direction meets a plane: the returned
    homogeneous point lies in the plane and on the line; weight zero iff the
    line is parallel, all components zero iff it lies in the plane."""
    N = ctx.dim('N')
    p, d = ctx.array('p', (N, 3)), ctx.array('d', (N, 3))
    h = ctx.array('h', (4,))
    ctx.requires(~ctx.alltrue(ctx.eq(d, 0.), axis=1))
    ctx.requires(~ctx.alltrue(ctx.eq(h[:3], 0.), axis=0))
    L = pl.dir_point2line(d, p)
    ctx.shape_is('line shape', L, (N, 6))
    ctx.ensure('line direction', ctx.alltrue(ctx.eq(L[:, :3], d), axis=1))
    ctx.ensure('Pluecker condition', ctx.eq(np.sum(L[:, :3] * L[:, 3:], axis=1), 0., tol=1e-6))
    X = pl.intersect_line_plane(L, h)
    ctx.shape_is('shape', X, (N, 4))
    ctx.ensure('in plane', ctx.eq(np.sum(X[:, :3] * h[:3], axis=1) + X[:, 3] * h[3], 0., tol=1e-5))
    ctx.ensure('on line', ctx.alltrue(ctx.eq(np.cross(X[:, :3] - X[:, 3][:, None] * p, d), 0., tol=1e-4), axis=1))
    nd = np.sum(d * h[:3], axis=1)
    ctx.ensure('weight zero iff parallel', ctx.eq(X[:, 3], nd))
    inpl = ctx.eq(np.sum(p * h[:3], axis=1) + h[3], 0.) & ctx.eq(nd, 0.)
    ctx.ensure('all zero if in plane', ctx.implies(inpl, ctx.alltrue(ctx.eq(X, 0., tol=1e-5), axis=1)))
    dist = np.sum(p * h[:3], axis=1) + h[3]
    ctx.ensure('parallel line off the plane: its direction', ctx.implies(
        ctx.eq(nd, 0.), ctx.alltrue(ctx.eq(X[:, :3], -d * dist[:, None], tol=1e-4), axis=1)))


@contract('P01', 'line_two_points')
def line_two_points(ctx):
    """The line through two points: direction first to second, same line as
    from point and direction."""
    N = ctx.dim('N')
    a, b = ctx.array('a', (N, 3)), ctx.array('b', (N, 3))
    L = pl.e_pointpoint2line(a, b)
    ctx.ensure('direction', ctx.alltrue(ctx.eq(L[:, :3], b - a), axis=1))
    ctx.ensure('moment', ctx.alltrue(ctx.eq(L, pl.dir_point2line(b - a, a), tol=1e-6), axis=1))
    ctx.ensure('contains second', ctx.alltrue(ctx.eq(L[:, 3:], np.cross(b - a, b), tol=1e-6), axis=1))


@contract('P01', 'angle_line_plane')
def angle_line_plane(ctx):
    """Angle between a line and a plane's normal does not depend on the length
    of either vector and has the cosine of the scalar product."""
    d = ctx.array('d', (6,))
    h = ctx.array('h', (4,))
    ctx.requires(~ctx.eq(np.sum(d[:3] ** 2), 0.) & ~ctx.eq(np.sum(h[:3] ** 2), 0.))
    a = pl.angle_line_plane(d, h)
    n2 = np.sum(d[:3] ** 2) * np.sum(h[:3] ** 2)
    with np.errstate(all='ignore'):
        c = ctx.np.cos(a)
    dp = np.dot(d[:3], h[:3])
    ctx.ensure('cosine', ctx.eq(c * c * n2, dp * dp, tol=1e-6) | ctx.isnan(c))
    ctx.ensure('sign', ctx.le(0., c * dp, tol=1e-6) | ctx.isnan(c))


@contract('P01', 'affine_builders')
def affine(ctx):
    """Affine matrices built from a translation, a zoom and a 3x3 matrix act as
    such on points and leave directions untranslated."""
    N = ctx.dim('N')
    t, z, M = ctx.array('t', (3,)), ctx.array('z', (3,)), ctx.array('M', (3, 3))
    p = ctx.array('p', (N, 3))
    s = ctx.scalar('s')
    for w in (0, 1):
        P = ctx.hom(p, w)
        ctx.ensure('translation %i' % w, ctx.alltrue(ctx.eq(np.dot(P, mu.translation2aff(t).T), ctx.hom(p + w * t, w)), axis=1))
        ctx.ensure('zoom %i' % w, ctx.alltrue(ctx.eq(np.dot(P, mu.zoom2aff(z).T), ctx.hom(p * z, w)), axis=1))
        ctx.ensure('matrix %i' % w, ctx.alltrue(ctx.eq(np.dot(P, mu.mat2aff(M).T), ctx.hom(np.dot(p, M.T), w), tol=1e-6), axis=1))
    ctx.ensure('scalar zoom', ctx.alltrue(ctx.eq(mu.zoom2aff(s), mu.zoom2aff(ctx.np.array([s, s, s]))), axis=1))
    ctx.raises('2d translation', ValueError, mu.translation2aff, t[:2])
    ctx.raises('2d zoom', ValueError, mu.zoom2aff, t[:2])


@contract('P01', 'norm_vector')
def norm_vector(ctx):
    N = ctx.dim('N')
    v = ctx.array('v', (N, 3))
    n2 = np.sum(v * v, axis=1)
    ctx.requires(~ctx.eq(n2, 0.))
    u = mu.norm_vector(v)
    ctx.ensure('unit', ctx.eq(np.sum(u * u, axis=1), 1.))
    ctx.ensure('parallel', ctx.alltrue(ctx.eq(np.cross(u, v), 0., tol=1e-6), axis=1))
    ctx.ensure('same sense', ctx.le(0., np.sum(u * v, axis=1)))


TWOPI = 2 * np.pi


def onlyrange(ctx, x, lo, hi):
    pass


@contract('P01', 'angle_between')
def angle_between(ctx):
    """Interval membership of an angle does not depend on multiples of 2 pi on
    any of the three angles and is the cyclic interval."""
    N = ctx.dim('N')
    a = ctx.array('a', (N,), 0., TWOPI, (False, True))
    b1 = ctx.scalar('b1', 0., TWOPI, (False, True))
    b2 = ctx.scalar('b2', 0., TWOPI, (False, True))
    ka, k1, k2 = ctx.choose('turns', [(0, 0, 0), (-1, 0, 1), (1, -1, 0), (0, 1, -1), (2, -2, 2), (-3, 1, 0)])
    eps = 1e-6
    for x, y in ((a, b1), (a, b2)):
        if ctx.mode == 'conc':
            ctx.requires((abs(x - y) > eps) & (abs(x) > eps) & (abs(x - TWOPI) > eps))
    if ctx.mode == 'conc':
        ctx.requires((min(b1, b2) > eps) & (max(b1, b2) < TWOPI - eps))
    pi2 = 2 * ctx.np.pi
    r = mu.angle_between(a + ka * pi2, b1 + k1 * pi2, b2 + k2 * pi2)
    up = ctx.cond(b1 < b2)
    inside = ctx.all(b1 <= a, a <= b2)
    outside = ctx.any(b1 <= a, a <= b2)
    ctx.ensure('interval', ctx.implies(up, ctx.iff(r, inside)))
    ctx.ensure('wrapped interval', ctx.implies(~up, ctx.iff(r, outside)))


@contract('P01', 'angle_between_full_circle')
def angle_between_full(ctx):
    """The limits (-pi, pi) contain every angle."""
    N = ctx.dim('N')
    a = ctx.array('a', (N,), -3.141592653589793, 3.141592653589793)
    ctx.ensure('everything inside', mu.angle_between(a, -ctx.np.pi, ctx.np.pi))


@contract('P01', 'anglediff')
def anglediff(ctx):
    """The range covered from the first to the second angle: congruent to the
    difference, between 0 and a full circle (2 pi kept as a full circle)."""
    a = ctx.scalar('a', 0., 6.28)
    d = ctx.scalar('d', 0., TWOPI, (False, True))
    k = ctx.choose('k', [0, -1, -2, 1])
    if ctx.mode == 'conc':
        ctx.requires((d > 1e-6) & (d < TWOPI - 1e-6))
    pi2 = 2 * ctx.np.pi
    r = mu.anglediff([a, a + d + k * pi2])
    if k == 1:
        # exact full circle stays a full circle
        ctx.ensure('value', ctx.eq(r, d, tol=1e-6) | (ctx.eq(d, 0.) & ctx.eq(r, pi2)))
        full = mu.anglediff([a, a + pi2])
        ctx.ensure('full circle', ctx.eq(full, pi2) | ctx.eq(full, 0.) if ctx.mode == 'conc' else ctx.eq(full, pi2))
    else:
        ctx.ensure('value', ctx.eq(r, d, tol=1e-6))


@contract('P01', 'axis_permutation')
def permutation(ctx):
    """The z-axis convention matrix is a rotation moving x to z."""
    p = ctx.array('p', (3,))
    q = np.dot(mu.xyz2zxy, ctx.hom(p, 1))
    ctx.ensure('x to z', ctx.eq(q[2], p[0]))
    ctx.ensure('y to x', ctx.eq(q[0], p[1]))
    ctx.ensure('z to y', ctx.eq(q[1], p[2]))
    ctx.ensure('w', ctx.eq(q[3], 1.))
