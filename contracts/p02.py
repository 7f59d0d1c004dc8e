"""P02: rotations and placement matrices."""
import numpy as np
from marxsvc.contract import contract
from marxs.math import rotations as ro
from marxs.math.geometry import Geometry, FinitePlane, xyz_square
from marxs.base.base import _parse_position_keywords
from marxs.optics.base import OpticalElement


def proper(ctx, name, R, tol=None):
    """R (..., 3, 3) is a proper rotation"""
    for i in range(3):
        for j in range(i, 3):
            ctx.ensure('%s: columns %d.%d' % (name, i, j),
                       ctx.eq(np.sum(R[..., :, i] * R[..., :, j], axis=-1), float(i == j), tol=tol))
    ctx.ensure(name + ': right handed',
               ctx.alltrue(ctx.eq(np.cross(R[..., :, 0], R[..., :, 1]), R[..., :, 2], tol=tol), axis=-1))


@contract('P02', 'axis_angle_rotation')
def axis_angle(ctx):
    """Every axis and angle give the right-handed rotation about that axis."""
    N = ctx.dim('N')
    norm = ctx.choose('is_normalized', [False, True])
    if norm:
        a = u = ctx.unit_vector('a', (N,))
    else:
        s = ctx.array('s', (N,), 0.01, 100.)
        u = ctx.unit_vector('a', (N,))
        a = u * s[:, None]
    phi = ctx.array('phi', (N,), -10., 10.)
    R = ro.axangle2mat(a, phi, is_normalized=norm)
    ctx.shape_is('shape', R, (N, 3, 3))
    proper(ctx, 'rotation', R)
    v = ctx.array('v', (N, 3))
    Rv = np.sum(R * v[:, None, :], axis=2)
    c, s = ctx.np.cos(phi)[:, None], ctx.np.sin(phi)[:, None]
    want = v * c + np.cross(u, v) * s + u * np.sum(u * v, axis=1)[:, None] * (1 - c)
    ctx.ensure('Rodrigues', ctx.alltrue(ctx.eq(Rv, want, tol=1e-6), axis=1))


@contract('P02', 'axis_angle_length')
def axis_angle_length(ctx):
    """One angle is needed per axis."""
    a = ctx.array('a', (3, 3), 0.1, 1.)
    phi = ctx.array('phi', (2,))
    ctx.raises('ValueError', ValueError, ro.axangle2mat, a, phi)


@contract('P02', 'normal_and_fixed_vector')
def ex2vec(ctx):
    """The rotation taking the x-axis to a given direction with the y-axis
    coplanar with that direction and the fixed vector, on the fixed vector's
    side; (anti)parallel inputs are refused."""
    F = ctx.frame('F')
    u, v = F[:, 1], F[:, 2]
    # every non-parallel pair of vectors is of this form
    al = ctx.scalar('alpha', -3.14159, 3.14159)
    c, s = ctx.np.cos(al), ctx.np.sin(al)
    l1, l2 = ctx.scalar('l1', 0.1, 10.), ctx.scalar('l2', 0.1, 10.)
    ctx.requires(ctx.le(1e-3, s, tol=0) if ctx.mode == 'sym' else s > 1e-3)
    n = u * c + v * s
    for sg in (1, -1):
        df = [u[i] - sg * n[i] for i in range(3)]
        ctx.lemma('|u -+ n|^2', ctx.eq(df[0] * df[0] + df[1] * df[1] + df[2] * df[2], 2 - sg * 2 * c))
        ctx.lemma('bounded below', ctx.le(1e-6, 2 - sg * 2 * c, tol=1e-12))
        ctx.lemma('one square not tiny', ctx.any(*[ctx.le(1e-7, x * x, tol=1e-12) for x in df]))
        ctx.general('root', lambda x: ctx.implies(ctx.le(1e-7, x * x), ctx.le(1e-4, abs(x))), *[(x,) for x in df])
    ctx.lemma('n is a unit vector', ctx.eq(n[0] * n[0] + n[1] * n[1] + n[2] * n[2], 1.))
    perm = [(0, 1, 2), (1, 2, 0), (2, 0, 1)]
    ctx.general('component of a unit vector', lambda x, y, z: ctx.implies(ctx.eq(x * x + y * y + z * z, 1.), ctx.le(abs(x), 1.)),
                *[tuple(w[i] for i in p) for p in perm for w in (n, u)])
    e1 = u * l1
    f = (u * c + v * s) * l2
    R = ro.ex2vec_fix(e1, f)
    ctx.shape_is('shape', R, (3, 3))
    proper(ctx, 'rotation', R)
    ctx.ensure('x-axis goes to e1', ctx.alltrue(ctx.eq(R[:, 0], u), axis=0))
    ctx.ensure('y coplanar with and on the side of the fixed vector', ctx.alltrue(ctx.eq(R[:, 1], v, tol=1e-6), axis=0))


@contract('P02', 'parallel_vectors_refused')
def ex2vec_parallel(ctx):
    """(Anti)parallel inputs leave the rotation ambiguous and are refused."""
    u = ctx.unit_vector('u')
    l1, l2 = ctx.scalar('l1', 0.1, 10.), ctx.scalar('l2', 0.1, 10.)
    s = ctx.choose('sign', [1., -1.])
    ctx.raises('ValueError', ValueError, ro.ex2vec_fix, u * l1, u * (l2 * s))


@contract('P02', 'placement_from_keywords')
def placement(ctx):
    """pos4d built from position, orientation and zoom maps local coordinates q
    to position + orientation . (zoom * q); defaults are origin, no rotation,
    no zoom."""
    N = ctx.dim('N')
    R = ctx.frame('R')
    t = ctx.array('t', (3,))
    which = ctx.choose('zoom', ['vector', 'scalar', 'none'])
    if which == 'vector':
        z = zz = ctx.array('z', (3,), 0.05, 30.)
    elif which == 'scalar':
        z = ctx.scalar('z', 0.05, 30.)
        zz = z * ctx.np.ones(3)
    else:
        zz = ctx.np.ones(3)
    kw = {'position': t, 'orientation': R, 'other': 1}
    if which != 'none':
        kw['zoom'] = z
    P = _parse_position_keywords(kw)
    ctx.ensure('only its own keywords consumed', list(kw) == ['other'])
    q = ctx.array('q', (N, 3))
    X = np.dot(ctx.hom(q, 1), P.T)
    ctx.ensure('points', ctx.alltrue(ctx.eq(X[:, :3], t + np.dot(q * zz, R.T), tol=1e-6), axis=1))
    ctx.ensure('w', ctx.eq(X[:, 3], 1.))
    D = np.dot(ctx.hom(q, 0), P.T)
    ctx.ensure('directions', ctx.alltrue(ctx.eq(D, ctx.hom(np.dot(q * zz, R.T), 0), tol=1e-6), axis=1))


@contract('P02', 'placement_defaults')
def placement_defaults(ctx):
    P = _parse_position_keywords({})
    ctx.ensure('identity', ctx.alltrue(ctx.alltrue(ctx.eq(P, np.eye(4)), axis=1), axis=0))
    t = ctx.array('t', (3,))
    P = _parse_position_keywords({'position': t})
    ctx.ensure('translation', ctx.alltrue(ctx.eq(P[:3, 3], t), axis=0))
    ctx.ensure('no rotation', ctx.alltrue(ctx.alltrue(ctx.eq(P[:3, :3], np.eye(3)), axis=1), axis=0))


@contract('P02', 'placement_refusals')
def refusals(ctx):
    """Non-positive zoom, wrong length, singular matrix and contradictory
    keywords are refused."""
    z = ctx.array('z', (3,), 0.1, 3.)
    bad = ctx.scalar('bad', -3., 0.)
    for i in range(3):
        zb = ctx.np.array([bad if j == i else z[j] for j in range(3)])
        ctx.raises('zoom %d <= 0' % i, ValueError, _parse_position_keywords, {'zoom': zb})
    ctx.raises('scalar zoom <= 0', ValueError, _parse_position_keywords, {'zoom': bad})
    ctx.raises('two zooms', ValueError, _parse_position_keywords, {'zoom': z[:2]})
    P, parts = ctx.placement('P')
    for k, v in (('position', z), ('orientation', parts['R']), ('zoom', z)):
        ctx.raises('pos4d and ' + k, ValueError, _parse_position_keywords, {'pos4d': P, k: v})
    kw = {'pos4d': P}
    got = _parse_position_keywords(kw)
    ctx.ensure('pos4d used as given', ctx.alltrue(ctx.alltrue(ctx.eq(got, P), axis=1), axis=0))
    S = ctx.np.array([[1., 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 0], [0, 0, 0, 1]])
    ctx.raises('singular', ValueError, _parse_position_keywords, {'pos4d': S})


@contract('P02', 'geometry_labels')
def labels(ctx):
    """Centre, edge vectors, unit vectors, plane and stored 4-vectors of an
    element are the images of the local ones under its placement."""
    P, pt = ctx.placement('P')
    R, t, z = pt['R'], pt['t'], pt['zoom']
    v = ctx.array('v', (4,))
    sc = ctx.scalar('sc')
    # the labels follow when the element is moved
    Q, _ = ctx.placement('Q')
    gg = Geometry({'pos4d': Q})
    gg._geometry['own'] = v
    gg._geometry['scalar'] = sc
    for n in ('center', 'v_x', 'v_y', 'v_z', 'e_x', 'e_y', 'e_z', 'plane', 'own', 'scalar'):
        gg[n]
    gg.pos4d = P
    ctx.ensure('center', ctx.alltrue(ctx.eq(gg['center'], ctx.hom(t, 1)), axis=0))
    for i, n in enumerate('xyz'):
        ctx.ensure('v_' + n, ctx.alltrue(ctx.eq(gg['v_' + n], ctx.hom(R[:, i] * z[i], 0)), axis=0))
        ctx.ensure('e_' + n, ctx.alltrue(ctx.eq(gg['e_' + n], ctx.hom(R[:, i], 0)), axis=0))
    pl = gg['plane']
    ctx.ensure('plane normal', ctx.alltrue(ctx.eq(pl[:3], R[:, 0]), axis=0))
    ctx.ensure('plane contains centre', ctx.eq(np.dot(pl[:3], t) + pl[3], 0., tol=1e-6))
    want = np.dot(R, v[:3] * z) + t * v[3]
    ctx.ensure('stored vector', ctx.alltrue(ctx.eq(gg['own'], ctx.np.array([want[0], want[1], want[2], v[3]]), tol=1e-6), axis=0))
    ctx.ensure('stored number', ctx.eq(gg['scalar'], sc))
    ctx.ensure('class level defaults untouched', Geometry._geometry == {} and FinitePlane._geometry == {})


@contract('P02', 'square_corners')
def corners(ctx):
    """The corners of an element's outline are centre +- edge vectors."""
    P, pt = ctx.placement('P')
    f = ctx.scalar('f', 0.1, 5.)
    g = FinitePlane({'pos4d': P})
    c = xyz_square(g, r_factor=f)
    ctx.shape_is('shape', c, (4, 3))
    R, t, z = pt['R'], pt['t'], pt['zoom']
    y, zz = R[:, 1] * z[1] * f, R[:, 2] * z[2] * f
    for i, (a, b) in enumerate([(1, 1), (-1, 1), (-1, -1), (1, -1)]):
        ctx.ensure('corner %d' % i, ctx.alltrue(ctx.eq(c[i], t + a * y + b * zz), axis=0))


@contract('P02', 'optical_element_placement')
def opt(ctx):
    """An optical element exposes exactly the placement it was given."""
    P, pt = ctx.placement('P')
    e = OpticalElement(pos4d=P)
    ctx.ensure('pos4d', ctx.alltrue(ctx.alltrue(ctx.eq(e.pos4d, P), axis=1), axis=0))
    ctx.ensure('geometry', ctx.alltrue(ctx.alltrue(ctx.eq(e.geometry.pos4d, P), axis=1), axis=0))
