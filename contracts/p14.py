"""P14: aperture photons start on the aperture with area-proportional weights."""
import numpy as np
import astropy.units as u
from marxsvc.contract import contract
from marxsvc.photons import photons, unchanged
from marxs.base import GeometryError
from marxs.optics import RectangleAperture, CircleAperture, MultiAperture
from marxs.optics.aperture import FlatAperture


def table(ctx, N, with_pos=True):
    ph, old = photons(ctx, N)
    if not with_pos:
        ph.remove_column('pos')
    return ph, old


def local(ctx, pt, pos):
    """local coordinates of points, as in P = t + R diag(zoom) x"""
    rel = pos[:, :3] - pt['t']
    loc = np.dot(rel, pt['R'])
    return [loc[:, i] / pt['zoom'][i] for i in range(3)]


def projected(ctx, out, old, pt, where=None, tag=''):
    """the probability is multiplied with the projection of the ray on the
    normal of the aperture"""
    cosang = -np.dot(old['dir'][:, :3], pt['R'][:, 0])
    want = old["probability"] * ctx.np.clip(cosang, 0., 1.)
    c = ctx.eq(ctx.column(out, 'probability'), want)
    ctx.ensure(tag + 'probability is multiplied with the projection', c if where is None else ctx.implies(where, c))


@contract('P14', 'rectangle')
def rectangle(ctx):
    """RectangleAperture: positions in the rectangle, area-preserving."""
    N = ctx.dim('N', nonempty=True)
    P, pt = ctx.placement('P')
    has = ctx.choose('pos column exists', [True, False])
    ph, old = table(ctx, N, has)
    el = RectangleAperture(pos4d=P)
    d = ctx.draws()

    def run():
        out = el(ph.copy())
        run.out = out
        x, y, z = local(ctx, pt, ctx.column(out, 'pos'))
        run.x = x
        return y, z
    y, z, J = d.jacobian(run)
    out = run.out
    ctx.ensure('in the plane of the aperture', ctx.eq(run.x, 0., tol=1e-6))
    ctx.ensure('inside, y', ctx.le(abs(y), 1.))
    ctx.ensure('inside, z', ctx.le(abs(z), 1.))
    ctx.ensure('homogeneous point', ctx.eq(ctx.column(out, 'pos')[:, 3], 1.))
    ctx.ensure('area-preserving and covering the full area', ctx.eq(abs(J), 4., tol=1e-5))
    unchanged(ctx, out, old, ['dir', 'energy', 'polarization'], ctx.cond(old['energy'] > 0))
    projected(ctx, out, old, pt)
    ctx.ensure('area', ctx.eq(el.area.to_value(u.mm**2), 4. * pt['zoom'][1] * pt['zoom'][2]))


def ring(ctx, full=False):
    R, t = ctx.frame('R'), ctx.array('t', (3,))
    zx, r = ctx.scalar('zx', 0.1, 10.), ctx.scalar('r', 0.1, 10.)
    zoom = [zx, r, r]
    M = ctx.np.zeros((4, 4))
    for i in range(3):
        M[:3, i] = R[:, i] * zoom[i]
    M[:3, 3], M[3, 3] = t, 1.
    if full:
        phi = None
    else:
        p0, dp = ctx.scalar('phi0', -3.1, 3.1), ctx.scalar('dphi', 0.01, 6.28)
        phi = [p0, p0 + dp]
    rin = ctx.scalar('r_inner', 0., 10.)
    ctx.requires(rin < r)
    return M, {'R': R, 't': t, 'zoom': zoom}, phi, rin, r


@contract('P14', 'circle')
def circle(ctx):
    """CircleAperture: positions in the ring segment, area-preserving."""
    N = ctx.dim('N', nonempty=True)
    shape = ctx.choose('shape', ['segment of a ring', 'full ring', 'disk'])
    M, pt, phi, rin, r = ring(ctx, full=shape != 'segment of a ring')
    ph, old = table(ctx, N)
    kw = {}
    if phi is not None:
        kw['phi'] = phi
    else:
        phi = [0., 2 * ctx.np.pi]
    if shape == 'disk':
        rin = 0.
    else:
        kw['r_inner'] = rin
    el = CircleAperture(pos4d=M, **kw)
    d = ctx.draws()

    def run():
        out = el(ph.copy())
        run.out = out
        x, y, z = local(ctx, pt, ctx.column(out, 'pos'))
        run.x = x
        return y, z
    if ctx.mode == 'conc':          # (the derivative of the square root)
        u0 = ctx.array('u', (2, N), 0.001, 0.999)
        d.replay_u = [u0[0], u0[1]]
    y, z, J = d.jacobian(run)
    out = run.out
    dphi = phi[1] - phi[0]
    ctx.ensure('in the plane of the aperture', ctx.eq(run.x, 0., tol=1e-6))
    rr = y ** 2 + z ** 2
    ctx.ensure('inside the outer radius', ctx.le(rr, 1.))
    ctx.ensure('outside the inner radius', ctx.le((rin / r) ** 2, rr))
    rho = ctx.np.sqrt(rr)
    on = []
    for k in (0, 1):
        ang = phi[0] + d.u[k] * dphi
        on.append(ctx.all(ctx.eq(y, rho * ctx.np.cos(ang), tol=1e-6), ctx.eq(z, rho * ctx.np.sin(ang), tol=1e-6)))
    ctx.ensure('angle inside the segment', ctx.any(*on))
    area = dphi / 2. * (1. - (rin / r) ** 2)
    ctx.ensure('area-preserving and covering the full area', ctx.eq(abs(J), area, tol=1e-4))
    projected(ctx, out, old, pt)
    unchanged(ctx, out, old, ['dir', 'energy', 'polarization'], ctx.cond(old['energy'] > 0))
    ctx.ensure('area', ctx.eq(el.area.to_value(u.mm**2), dphi / 2. * (r ** 2 - rin ** 2)))


@contract('P14', 'circle_refusals')
def refusals(ctx):
    """Inner radius beyond the outer one, ellipses and malformed angles are refused."""
    case = ctx.choose('case', ['inner', 'ellipse', 'order', 'degrees', 'more than full'])
    r = ctx.scalar('r', 0.1, 10.)
    zoom = [1., r, r]
    kw, err = {}, ValueError
    if case == 'inner':
        x = ctx.scalar('x', 0., 20.)
        ctx.requires(x > r)
        kw['r_inner'] = x
    elif case == 'ellipse':
        x = ctx.scalar('x', 0.1, 10.)
        # (equal means equal within the tolerance of numpy.isclose)
        ctx.requires(abs(x - r) > 1e-3 * (1 + x))
        zoom[2] = x
        err = GeometryError
    elif case == 'order':
        p = ctx.array('p', (2,), -3., 3.)
        ctx.requires(p[1] < p[0])
        kw['phi'] = [p[0], p[1]]
    elif case == 'degrees':
        p = ctx.array('p', (2,), -400., 400.)
        ctx.requires(p[0] < p[1])
        ctx.requires(abs(p[1]) > 10.)
        kw['phi'] = [p[0], p[1]]
    else:
        p = ctx.array('p', (2,), -9., 9.)
        ctx.requires(p[1] - p[0] > 2 * np.pi + 1e-3)
        kw['phi'] = [p[0], p[1]]
    ctx.raises(case, err, CircleAperture, position=[0., 1., 2.], zoom=zoom, **kw)


class Part(object):
    """A part of a MultiAperture by its contract (flat apertures are the subject
    of the contracts above): it has an area and processes the photons it is
    given, and no other."""

    def __init__(self, ctx, i, N, log):
        self.ctx, self.i, self.log = ctx, i, log
        self.value = ctx.scalar('area%d' % i, 0.01, 100.)
        self.area = self.value * (u.mm**2 if i != 1 else u.cm**2)
        self.newpos = ctx.hom(ctx.array('newpos%d' % i, (N, 3)), 1)
        self.factor = ctx.array('factor%d' % i, (N,), 0., 1.)

    def __call__(self, photons):
        raise AssertionError('a part may only be given its own photons')

    def process_photons(self, photons, intersect, interpos, intercoos):
        ctx = self.ctx
        self.log.append((self.i, intersect))
        m = ctx.np.asarray(intersect) if ctx.mode == 'conc' else intersect
        photons['pos'] = ctx.np.where(m[:, None], self.newpos, photons['pos'])
        photons['probability'] = ctx.np.where(m, photons['probability'] * self.factor, photons['probability'])
        if 'mark' not in photons.colnames:
            photons['mark'] = ctx.np.where(m, float(self.id_num), -1.)
        else:
            photons['mark'] = ctx.np.where(m, float(self.id_num), photons['mark'])
        return photons


@contract('P14', 'multi')
def multi(ctx):
    """MultiAperture: each photon goes through exactly one part; part i takes
    the photons whose random number is in its share of the total area."""
    N = ctx.dim('N')
    n = ctx.choose('parts', [1, 2, 3, 4])
    off = ctx.choose('first id', [0, 7])
    has = ctx.choose('pos column exists', [True, False])
    log = []
    els = [Part(ctx, i, N, log) for i in range(n)]
    ph, old = table(ctx, N, has)
    kw = {'id_num_offset': off} if off else {}
    if off:
        kw['id_col'] = 'ap'
    ap = MultiAperture(elements=els, preprocess_steps=[lambda p: log.append('before')],
                       postprocess_steps=[lambda p: log.append('after')], **kw)
    ctx.ensure('identifiers', all(e.id_num == off + i and e.id_col == ('ap' if off else 'aperture') for i, e in enumerate(els)))
    areas = [e.value * (100. if e.i == 1 else 1.) for e in els]
    tot = areas[0]
    for a in areas[1:]:
        tot = tot + a
    ctx.ensure('total area', ctx.eq(ap.area.to_value(u.mm**2), tot))
    d = ctx.draws()
    out = ap(ph)
    seq = [x if isinstance(x, str) else x[0] for x in log]
    ctx.ensure('every part is used once, in order, with its steps', seq == [y for i in range(n) for y in ('before', i, 'after')])
    if ctx.mode == 'sym':
        d.need(u=1)
    if len(d.u) != 1:
        return
    mark = ctx.column(out, 'mark')
    ctx.ensure('every photon goes through one of the parts', ctx.any(*[ctx.eq(mark, float(off + i)) for i in range(n)]))
    pos, prob = ctx.column(out, 'pos'), ctx.column(out, 'probability')
    w = d.u[0] * tot
    lo = 0. * w
    share = []
    for i in range(n):
        hi = lo + areas[i]
        inside = ctx.all(ctx.le(lo, w), ctx.lt(w, hi))
        share.append((inside, i))
        lo = hi
        me = ctx.eq(mark, float(off + i))
        ctx.ensure('position in its part', ctx.implies(me, ctx.alltrue(ctx.eq(pos, els[i].newpos), axis=1)))
        ctx.ensure('probability of its part, once', ctx.implies(me, ctx.eq(prob, old['probability'] * els[i].factor)))
    # the order of the photons may be shuffled: only in a symbolic run (where a
    # photon is arbitrary) this is the photon's own random number
    if ctx.mode == 'sym':
        for inside, i in share:
            ctx.ensure('share of the area', ctx.implies(inside, ctx.eq(mark, float(off + i))))
    unchanged(ctx, out, old, ['dir', 'energy', 'polarization'], ctx.cond(old['energy'] > 0))


@contract('P14', 'multi_share', bounded='800 photons, 2-4 parts, statistical agreement within 6 standard deviations')
def share(ctx):
    """MultiAperture: the number of photons per part follows the areas."""
    n = ctx.choose('parts', [2, 3, 4])
    zz = ctx.array('zz', (n, 2), 0.2, 3.)
    rnd = np.random.RandomState(ctx.rng.randint(2**31))
    els = [RectangleAperture(position=[0., 10. * i, 0.], zoom=[1., zz[i, 0], zz[i, 1]]) for i in range(n)]
    ap = MultiAperture(elements=els)
    from astropy.table import Table
    N = 800
    ph = Table({'dir': np.tile([-1., 0, 0, 0], (N, 1)), 'probability': np.ones(N)})
    state = np.random.get_state()
    np.random.seed(rnd.randint(2**31))
    try:
        out = ap(ph)
    finally:
        np.random.set_state(state)
    areas = zz[:, 0] * zz[:, 1]
    f = areas / areas.sum()
    cnt = np.array([(out['aperture'] == i).sum() for i in range(n)])
    ctx.ensure('all photons', int(cnt.sum()) == N)
    ctx.ensure('share', bool(np.all(np.abs(cnt - N * f) <= 6 * np.sqrt(N * f * (1 - f)) + 1)))
    half = (out['aperture'][:N // 2] == 0).sum()
    ctx.ensure('not sorted by part', bool(abs(half - N // 2 * f[0]) <= 6 * np.sqrt(N / 2 * f[0] * (1 - f[0])) + 1))
