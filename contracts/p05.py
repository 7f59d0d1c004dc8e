"""P05: local coordinate systems on element surfaces."""
import numpy as np
from marxsvc.contract import contract
from marxs.math.geometry import FinitePlane, Cylinder, PlaneWithHole, RectangleHole, CircularHole
from marxs.math import rotations, geometry


def orthonormal(ctx, e1, e2, n, N):
    for nm, v in (('e1', e1), ('e2', e2), ('n', n)):
        ctx.shape_is(nm + ' shape', v, (N, 4))
        ctx.ensure(nm + ' is a direction', ctx.eq(v[:, 3], 0.))
        ctx.ensure(nm + ' has unit length', ctx.eq(np.sum(v[:, :3] * v[:, :3], axis=1), 1.))
    ctx.ensure('e1 perpendicular e2', ctx.eq(np.sum(e1 * e2, axis=1), 0.))
    ctx.ensure('e1 perpendicular n', ctx.eq(np.sum(e1 * n, axis=1), 0.))
    ctx.ensure('e2 perpendicular n', ctx.eq(np.sum(e2 * n, axis=1), 0.))
    ctx.ensure('right-handed', ctx.alltrue(ctx.eq(np.cross(e1[:, :3], e2[:, :3]), n[:, :3]), axis=1))


@contract('P05', 'flat')
def flat(ctx):
    """On a flat element the normal is the element's x axis, the surface vectors
    its y and z axis, at every point."""
    N = ctx.dim('N')
    P, pt = ctx.placement('P')
    cls = ctx.choose('class', [FinitePlane, RectangleHole])
    geo = cls({'pos4d': P})
    e1, e2, n = geo.get_local_euklid_bases(ctx.array('loc', (N, 2)))
    orthonormal(ctx, e1, e2, n, N)
    R = pt['R']
    for nm, v, k in (('normal', n, 0), ('e1', e1, 1), ('e2', e2, 2)):
        ctx.ensure(nm + ' is the axis of the element', ctx.alltrue(ctx.eq(v[:, :3], R[:, k]), axis=1))


@contract('P05', 'flat_same_as_intersection_frame')
def flat_frame(ctx):
    """Stepping along the two surface vectors changes the two local coordinates
    by exactly the step."""
    N = ctx.dim('N')
    P, pt = ctx.placement('P')
    geo = FinitePlane({'pos4d': P})
    loc = ctx.array('loc', (N, 2))
    e1, e2, n = geo.get_local_euklid_bases(loc)
    pt3 = pt['t'] + loc[:, 0:1] * e1[:, :3] + loc[:, 1:2] * e2[:, :3]
    hit, ip, il = geo.intersect(-n, ctx.hom(pt3 + 1. * n[:, :3], 1))
    inside = ctx.all(ctx.le(abs(loc[:, 0]), pt['zoom'][1]), ctx.le(abs(loc[:, 1]), pt['zoom'][2]))
    ctx.ensure('the ray along the normal hits there', ctx.implies(inside, hit))
    ctx.ensure('local coordinates', ctx.implies(hit, ctx.alltrue(ctx.eq(il, loc, tol=1e-6), axis=1)))


@contract('P05', 'tube')
def tube(ctx):
    """On a tube the normal points radially outward, the first surface vector
    along increasing angle, the second along the axis."""
    N = ctx.dim('N')
    z2 = ctx.array('zoom', (2,), 0.1, 30.)
    z = ctx.np.array([z2[0], z2[0], z2[1]])
    P, pt = ctx.placement('P', zoom=z)
    geo = Cylinder({'pos4d': P})
    f = ctx.array('f', (N,), -4., 4.)
    h = ctx.array('h', (N,))
    loc = ctx.np.stack([f, h], axis=-1)
    e1, e2, n = geo.get_local_euklid_bases(loc)
    orthonormal(ctx, e1, e2, n, N)
    R = pt['R']
    c, s = ctx.np.cos(f), ctx.np.sin(f)
    ctx.ensure('axis', ctx.alltrue(ctx.eq(e2[:, :3], R[:, 2]), axis=1))
    ctx.ensure('normal is radial', ctx.alltrue(ctx.eq(n[:, :3], np.outer(c, R[:, 0]) + np.outer(s, R[:, 1])), axis=1))
    ctx.ensure('along the angle', ctx.alltrue(ctx.eq(e1[:, :3], np.outer(c, R[:, 1]) - np.outer(s, R[:, 0])), axis=1))


@contract('P05', 'plane_equation')
def plane(ctx):
    """The plane of an element passes through its centre and corners and has
    the local normal."""
    P, pt = ctx.placement('P')
    geo = FinitePlane({'pos4d': P})
    pl = geo['plane']
    ctx.shape_is('shape', pl, (4,))
    ab = ctx.array('ab', (2,))
    p = pt['t'] + ab[0] * pt['R'][:, 1] + ab[1] * pt['R'][:, 2]
    ctx.ensure('contains every point of the element', ctx.eq(np.dot(pl, ctx.hom(p, 1)), 0.))
    q = p + 1. * pt['R'][:, 0]
    ctx.ensure('normal step', ctx.eq(np.dot(pl, ctx.hom(q, 1)) ** 2, 1.))
    ctx.ensure('centre', ctx.alltrue(ctx.eq(geo['center'], ctx.hom(pt['t'], 1)), axis=0))


@contract('P05', 'hole_parameters_not_shared', conc=True)
def hole_state(ctx):
    """The inner radius given to one aperture shape does not change another."""
    P, pt = ctx.placement('P')
    r = ctx.scalar('r', 0.1, 5.)
    a = CircularHole({'pos4d': P})
    ctx.ensure('default', ctx.eq(a['r_inner'], 0.))
    b = CircularHole({'pos4d': P, 'r_inner': r})
    ctx.ensure('given', ctx.eq(b['r_inner'], r))
    ctx.ensure('first one unchanged', ctx.eq(a['r_inner'], 0.))
