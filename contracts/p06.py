"""P06: polarization vectors and their transport."""
import numpy as np
from marxsvc.contract import contract
from marxs.math import polarization as pol


def two_directions(ctx, shape):
    """every pair of unit vectors is (u, cos a u + sin a v) for some
    orthonormal u, v and some angle a"""
    F = ctx.frame('F', shape)
    w, u, v = F[..., 0], F[..., 1], F[..., 2]
    a = ctx.array('a', shape, -3.14, 3.14, gen=lambda r, s: np.where(r.rand(*s) < .2, 0., r.uniform(-3., 3., s)))
    c, s = ctx.np.cos(a)[..., None], ctx.np.sin(a)[..., None]
    return w, u, v, c, s


@contract('P06', 'transport')
def transport(ctx):
    """Parallel transport is the rotation about the normal of the plane of both
    directions that maps the old into the new direction; where the directions
    are (anti-)parallel nothing changes."""
    N = ctx.dim('N')
    w, u, v, c, s = two_directions(ctx, (N,))
    new = c * u + s * v
    p = ctx.array('p', (N, 3))
    out = pol.parallel_transport(ctx.hom(u, 0), ctx.hom(new, 0), ctx.hom(p[:, 0:1] * w + p[:, 1:2] * u + p[:, 2:3] * v, 0))
    ctx.shape_is('shape', out, (N, 4))
    spec = p[:, 0:1] * w + p[:, 1:2] * new + p[:, 2:3] * (c * v - s * u)
    turned = ctx.cond(abs(s[:, 0]) > 1e-8)
    ctx.ensure('rotation from the old to the new direction', ctx.implies(turned, ctx.alltrue(ctx.eq(out[:, :3], spec), axis=1)))
    old = p[:, 0:1] * w + p[:, 1:2] * u + p[:, 2:3] * v
    ctx.ensure('unchanged direction', ctx.implies(~turned, ctx.alltrue(ctx.eq(out[:, :3], old), axis=1)))
    ctx.ensure('is a direction', ctx.eq(out[:, 3], 0.))


@contract('P06', 'transport_keeps_length_and_perpendicularity')
def isometry(ctx):
    """A polarization vector perpendicular to the ray stays perpendicular and
    keeps its length, for directions of any length."""
    N = ctx.dim('N')
    w, u, v, c, s = two_directions(ctx, (N,))
    new = c * u + s * v
    l1 = ctx.array('l1', (N, 1), 0., 5., (True, False), gen=lambda r, s: r.uniform(.1, 5., s))
    l2 = ctx.array('l2', (N, 1), 0., 5., (True, False), gen=lambda r, s: r.uniform(.1, 5., s))
    al = ctx.array('al', (N, 1), 0., 6.)
    P = ctx.np.cos(al) * w + ctx.np.sin(al) * v
    out = pol.parallel_transport(ctx.hom(l1 * u, 0), ctx.hom(l2 * new, 0), ctx.hom(P, 0))[:, :3]
    turned = ctx.cond(abs(s[:, 0]) > 1e-8)
    ctx.ensure('perpendicular', ctx.implies(turned, ctx.eq(np.sum(out * new, axis=1), 0.)))
    ctx.ensure('length', ctx.eq(np.sum(out * out, axis=1), 1.))


@contract('P06', 'transport_matrix_jones')
def jones(ctx):
    """With a Jones matrix the s and p components are transformed by it, the
    component along the ray is carried over."""
    N = ctx.dim('N')
    w, u, v, c, s = two_directions(ctx, (N,))
    new = c * u + s * v
    J = ctx.array('J', (2, 2))
    M = pol.paralleltransport_matrix(u, new, jones=J)
    ctx.shape_is('shape', M, (N, 3, 3))
    sg = s  # unit normal is sign(sin a) w
    for nm, cnd, g in (('pos', ctx.cond(s[:, 0] > 1e-8), 1.), ('neg', ctx.cond(s[:, 0] < -1e-8), -1.)):
        S = g * w
        pin = np.cross(u, S)
        pout = np.cross(new, S)

        def app(x):
            return ctx.np.einsum('ijk,ik->ij', M, x)
        ctx.ensure(nm + ' s input', ctx.implies(cnd, ctx.alltrue(ctx.eq(app(S), J[0, 0] * S + J[1, 0] * pout), axis=1)))
        ctx.ensure(nm + ' p input', ctx.implies(cnd, ctx.alltrue(ctx.eq(app(pin), J[0, 1] * S + J[1, 1] * pout), axis=1)))
        ctx.ensure(nm + ' direction', ctx.implies(cnd, ctx.alltrue(ctx.eq(app(u), new), axis=1)))
    out = pol.parallel_transport(ctx.hom(u, 0), ctx.hom(new, 0), ctx.hom(w, 0), jones=J)
    ctx.ensure('options are passed on', ctx.alltrue(ctx.eq(out[:, :3], ctx.np.einsum('ijk,ik->ij', M, w)), axis=1))


@contract('P06', 'transport_matrix_unchanged_rays')
def unchanged(ctx):
    """Rays that keep their direction get the identity, or NaN on request."""
    N = ctx.dim('N')
    u = ctx.unit_vector('u', (N,))
    M = pol.paralleltransport_matrix(u, u)
    for i in range(3):
        for j in range(3):
            ctx.ensure('identity %d%d' % (i, j), ctx.eq(M[:, i, j], float(i == j)))
    M = pol.paralleltransport_matrix(u, u, replace_nans=False)
    ctx.ensure('nan', ctx.all(ctx.isnan(M[:, 0, 0]), ctx.isnan(M[:, 1, 1]), ctx.isnan(M[:, 2, 2])))


@contract('P06', 'angle_to_vector')
def vectors(ctx):
    """The polarization vector is a unit vector perpendicular to the ray."""
    N = ctx.dim('N')
    d = ctx.unit_vector('d', (N,))
    l = ctx.array('l', (N, 1), 0., 5., (True, False), gen=lambda r, s: r.uniform(.1, 5., s))
    a = ctx.array('a', (N,), -7., 7.)
    keep = ctx.np.array(d * 1.)
    dd = ctx.hom(d * l, 0)
    out = pol.polarization_vectors(dd, a)
    ctx.shape_is('shape', out, (N, 4))
    o = out[:, :3]
    ctx.ensure('perpendicular', ctx.eq(np.sum(o * d, axis=1), 0.))
    ctx.ensure('unit', ctx.eq(np.sum(o * o, axis=1), 1.))
    ctx.ensure('is a direction', ctx.eq(out[:, 3], 0.))
    ctx.ensure('input untouched', ctx.alltrue(ctx.eq(dd[:, :3], d * l), axis=1))


@contract('P06', 'angle_convention')
def convention(ctx):
    """Angle 0 is the perpendicular direction closest to +y (closest to +x for
    rays along y); angles increase right-handed about the ray."""
    N = ctx.dim('N')
    d = ctx.unit_vector('d', (N,))
    a = ctx.array('a', (N,), -7., 7.)
    o = pol.polarization_vectors(ctx.hom(d, 0), a)[:, :3]
    o0 = pol.polarization_vectors(ctx.hom(d, 0), 0. * a)[:, :3]
    c, s = ctx.np.cos(a)[:, None], ctx.np.sin(a)[:, None]
    ctx.ensure('right-handed in the angle', ctx.alltrue(ctx.eq(o, c * o0 + s * np.cross(d, o0)), axis=1))
    along = ctx.all(abs(d[:, 0]) <= 1e-8, abs(d[:, 2]) <= 1e-8)
    # o0 is the positively scaled projection of the axis
    for nm, cnd, k in (('y', ~along, 1), ('x', along, 0)):
        e = np.eye(3)[k]
        proj = e - d[:, k:k + 1] * d
        ctx.ensure('zero is parallel to the projection of ' + nm, ctx.implies(cnd, ctx.alltrue(ctx.eq(np.cross(o0, proj), 0.), axis=1)))
        ctx.ensure('zero is on the side of ' + nm, ctx.implies(cnd, ctx.le(0., o0[:, k])))


@contract('P06', 'reflection_matrix')
def reflection(ctx):
    """The reflection matrix reverses the change of direction, leaves everything
    perpendicular to it alone and is its own inverse."""
    N = ctx.dim('N')
    F = ctx.frame('F', (N,))
    l = ctx.array('l', (N, 1), 0., 2., (True, False), gen=lambda r, s: r.uniform(.1, 2., s))
    w, u, v = F[..., 0], F[..., 1], F[..., 2]
    Q = pol.Q_reflection(ctx.hom(l * u, 0))
    ctx.shape_is('shape', Q, (N, 4, 4))
    ap = lambda x: ctx.np.einsum('ijk,ik->ij', Q, ctx.hom(x, 0))[:, :3]
    ctx.ensure('reverses the difference', ctx.alltrue(ctx.eq(ap(u), -u), axis=1))
    ctx.ensure('keeps perpendicular 1', ctx.alltrue(ctx.eq(ap(v), v), axis=1))
    ctx.ensure('keeps perpendicular 2', ctx.alltrue(ctx.eq(ap(w), w), axis=1))
    ctx.raises('single vector', ValueError, pol.Q_reflection, ctx.array('x', (4,)))
