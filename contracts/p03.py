"""P03: intersection of rays with finite flat elements."""
import numpy as np
from marxsvc.contract import contract
from marxs.math.geometry import FinitePlane


def setup(ctx):
    N = ctx.dim('N')
    P, pt = ctx.placement('P')
    geo = FinitePlane({'pos4d': P})
    # an arbitrary ray, given in the frame of the element (zoom not applied)
    q = ctx.array('q', (N, 3))
    e = ctx.unit_vector('e', (N,))
    R, t, z = pt['R'], pt['t'], pt['zoom']
    pos = ctx.hom(t + np.dot(q, R.T), 1)
    d = ctx.hom(np.dot(e, R.T), 0)
    return N, geo, R, t, z, q, e, pos, d


@contract('P03', 'finiteplane_intersect')
def finite_plane(ctx):
    """A ray hits iff the point where it meets the plane lies forward of the
    ray's origin and inside the rectangle; the reported points are that point
    in global and local coordinates, NaN otherwise."""
    N, geo, R, t, z, q, e, pos, d = setup(ctx)
    hit, ip, il = geo.intersect(d, pos)
    ctx.shape_is('hit shape', hit, (N,))
    ctx.shape_is('interpos shape', ip, (N, 4))
    ctx.shape_is('local shape', il, (N, 2))
    par = ctx.eq(e[:, 0], 0.)
    with np.errstate(all='ignore'):
        s = -q[:, 0] / e[:, 0]
    y = q[:, 1] + s * e[:, 1]
    w = q[:, 2] + s * e[:, 2]
    must = ctx.all(~par, ctx.le(0., s), ctx.le(abs(y), z[1]), ctx.le(abs(w), z[2]))
    ctx.ensure('complete: every forward ray meeting the rectangle hits', ctx.implies(must, hit))
    ctx.ensure('sound: only forward rays', ctx.implies(hit, ctx.le(0., s)))
    ctx.ensure('sound: only inside the width', ctx.implies(hit, ctx.le(abs(y), z[1])))
    ctx.ensure('sound: only inside the height', ctx.implies(hit, ctx.le(abs(w), z[2])))
    ctx.ensure('sound: only rays not parallel to the plane', ctx.implies(hit, ~par))
    loc = ctx.np.stack([0. * s, y, w], axis=-1)
    ctx.ensure('intersection point', ctx.implies(hit, ctx.alltrue(ctx.eq(ip, ctx.hom(t + np.dot(loc, R.T), 1)), axis=1)))
    ctx.ensure('local coordinates', ctx.implies(hit, ctx.alltrue(ctx.eq(loc[:, 1:], il), axis=1)))
    ctx.ensure('miss gives NaN', ctx.implies(~ctx.cond(hit), ctx.alltrue(ctx.isnan(ip[:, :3]), axis=1)))
    ctx.ensure('miss gives NaN local', ctx.implies(~ctx.cond(hit), ctx.alltrue(ctx.isnan(il), axis=1)))


@contract('P03', 'hit_point_on_ray_and_in_rectangle')
def on_ray(ctx):
    """The reported point is on the forward ray and in the rectangle, whatever
    the solution path."""
    N, geo, R, t, z, q, e, pos, d = setup(ctx)
    hit, ip, il = geo.intersect(d, pos)
    loc = np.dot(ip[:, :3] - t, R)
    k = np.sum((loc - q) * e, axis=1)
    ctx.ensure('on ray', ctx.implies(hit, ctx.alltrue(ctx.eq(loc, q + k[:, None] * e), axis=1)))
    ctx.ensure('forward', ctx.implies(hit, ctx.le(0., k)))
    ctx.ensure('on plane', ctx.implies(hit, ctx.eq(loc[:, 0], 0.)))
    ctx.ensure('in rectangle', ctx.implies(hit, ctx.all(ctx.le(abs(loc[:, 1]), z[1]), ctx.le(abs(loc[:, 2]), z[2]))))


@contract('P03', 'behind_or_parallel_misses')
def misses(ctx):
    """Rays starting beyond the plane and rays parallel to it never hit."""
    N, geo, R, t, z, q, e, pos, d = setup(ctx)
    if ctx.mode == 'conc':
        ctx.requires((abs(q[:, 0]) > 1e-3) & (abs(e[:, 0]) > 1e-3))
        bad = ctx.cond(q[:, 0] * e[:, 0] > 0)
    else:
        bad = ctx.cond(q[:, 0] * e[:, 0] > 0) | (ctx.eq(e[:, 0], 0.) & ~ctx.eq(q[:, 0], 0.))
    hit, ip, il = geo.intersect(d, pos)
    ctx.ensure('no hit', ctx.implies(bad, ~ctx.cond(hit)))
