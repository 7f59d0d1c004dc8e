"""P11: lenses image to a point, mirrors reflect specularly."""
import numpy as np
from marxsvc.contract import contract
from marxsvc.photons import photons, unchanged, any_intersection, transport_by_contract, transported
from marxs.optics import PerfectLens, ThinLens
from marxs.optics.multiLayerMirror import FlatBrewsterMirror
from marxs.optics import mirror


def dot(a, b):
    return np.sum(a * b, axis=-1)


@contract('P11', 'perfect_lens')
def lens(ctx):
    """A photon leaves a PerfectLens towards the point (centre on the optical
    axis) + f * (direction it came with), which is the same one for all photons
    of a direction; the probability is the reflectivity for its own energy and a
    quarter of its own deflection angle, squared for the two reflections."""
    N = ctx.dim('N')
    P, pt = ctx.placement('P')
    R, t = pt['R'], pt['t']
    f = ctx.scalar('f', 0.5, 1e4)
    off = ctx.scalar('off')
    axis_off = ctx.choose('axis', ['given', 'default'])
    ph, old = photons(ctx, N, length=ctx.choose('length of the directions', ['one', 'any']) == 'any')
    d1 = old['unit_dir']
    # the focus of this photon, and where the photon hits the lens as seen from there
    w = ctx.unit_vector('w', (N,))
    s = ctx.array('s', (N, 1), 0.1, 1e4)
    focus = t[None, :] + f * d1
    if axis_off == 'given':
        focus = focus - off * R[:, 2]
    hitpoint = focus - s * w
    refl = ctx.userfunc('refl', 0., 1.)

    def interp(energy, angle, grid=True):
        ctx.ensure('values for each photon, not on a grid', grid is False)
        return refl(energy, angle)
    kw = {'d_center_optical_axis': off} if axis_off == 'given' else {}
    el = PerfectLens(pos4d=P, focallength=f, reflectivity_interpolator=interp, **kw)
    hit, ip, il = any_intersection(ctx, el, N, old, pt=hitpoint)
    calls = transport_by_contract(ctx, mirror)
    out = el(ph)
    h = ctx.cond(hit)
    new = ctx.column(out, 'dir')
    ctx.ensure('stays a direction', ctx.implies(h, ctx.eq(new[:, 3], 0.)))
    ctx.ensure('flies straight to the image point', ctx.implies(h, ctx.alltrue(ctx.eq(new[:, :3], w, tol=1e-5), axis=1)))
    ang = ctx.np.arccos(abs(dot(w, d1)))
    pr = ctx.column(out, 'probability')
    if ctx.mode == 'conc':
        ctx.requires(abs(dot(w, d1)) < 1 - 1e-6)
    ctx.ensure('probability', ctx.implies(h, ctx.eq(pr, old['probability'] * refl(old['energy'], ang / 4) ** 2, tol=1e-4)))
    transported(ctx, calls, out, old, hit, h, tol=1e-5)


@contract('P11', 'perfect_lens_default_reflectivity')
def lens1(ctx):
    """Without a reflectivity the lens loses no photons."""
    N = ctx.dim('N')
    P, pt = ctx.placement('P')
    ph, old = photons(ctx, N)
    f = ctx.scalar('f', 0.5, 1e4)
    w = ctx.unit_vector('w', (N,))
    s = ctx.array('s', (N, 1), 0.1, 1e4)
    el = PerfectLens(pos4d=P, focallength=f)
    hit, ip, il = any_intersection(ctx, el, N, old, pt=pt['t'][None, :] + f * old['dir'][:, :3] - s * w)
    transport_by_contract(ctx, mirror)
    out = el(ph)
    unchanged(ctx, out, old, ['probability', 'energy'], ctx.cond(hit) | ~ctx.cond(hit))


def mirror_photons(ctx, N, R, t):
    """photons given relative to the plane of incidence of the element"""
    th = ctx.array('theta', (N,), 0.01, 3.13)
    ph = ctx.array('phi', (N,), -np.pi, np.pi)
    al = ctx.array('alpha', (N, 1), -np.pi, np.pi)
    st, ct, sp, cp = ctx.np.sin(th), ctx.np.cos(th), ctx.np.sin(ph), ctx.np.cos(ph)
    ctx.requires(st > 1e-3)
    z = 0. * st

    def glob(x, y, w):
        return np.dot(ctx.np.array([x, y, w]).T, R.T)
    d, refl = glob(ct, st * cp, st * sp), glob(-ct, st * cp, st * sp)
    s = glob(z, sp, -cp)
    p = glob(st, -ct * cp, -ct * sp)
    tab, old = photons(ctx, N, pol=False)
    old['dir'] = ctx.hom(d, 0)
    old['polarization'] = ctx.hom(ctx.np.cos(al) * s + ctx.np.sin(al) * p, 0)
    tab['dir'], tab['polarization'] = old['dir'], old['polarization']
    return tab, old, refl, s, al[:, 0]


@contract('P11', 'mirror')
def flat_mirror(ctx):
    """FlatBrewsterMirror: exactly the component along the normal is reversed;
    the probability is that of the s and p parts of the photon's polarization,
    and the new polarization is a unit vector perpendicular to the new ray."""
    N = ctx.dim('N')
    P, pt = ctx.placement('P')
    ph, old, want, s, al = mirror_photons(ctx, N, pt['R'], pt['t'])
    kind = ctx.choose('coefficients', ['Brewster', 'arbitrary'])
    if kind == 'arbitrary':
        rs, rp = ctx.userfunc('rs', 0.01, 1.), ctx.userfunc('rp', 0.01, 1.)

        class M(FlatBrewsterMirror):
            def fresnel(self, photons, intersect, intersection, local):
                e = photons['energy'][intersect]
                return rs(e), rp(e)
        es, ep = rs(old['energy']), rp(old['energy'])
    else:
        M = FlatBrewsterMirror
        es, ep = 1., 0.
        ctx.requires(ctx.np.cos(al) ** 2 > 1e-3)
    el = M(pos4d=P)
    hit, ip, il = any_intersection(ctx, el, N, old)
    ca, sa = ctx.np.cos(al), ctx.np.sin(al)
    frac = es * ca ** 2 + ep * sa ** 2
    out = el(ph)
    h = ctx.cond(hit)
    new, pol = ctx.column(out, 'dir'), ctx.column(out, 'polarization')
    ctx.ensure('reflected direction', ctx.implies(h, ctx.alltrue(ctx.eq(new, ctx.hom(want, 0)), axis=1)))
    ctx.ensure('probability', ctx.implies(h, ctx.eq(ctx.column(out, 'probability'), old['probability'] * frac)))
    ctx.ensure('polarization stays a direction', ctx.implies(h, ctx.eq(pol[:, 3], 0.)))
    ctx.ensure('polarization perpendicular to the reflected ray', ctx.implies(h, ctx.eq(dot(pol[:, :3], want), 0.)))
    ctx.ensure('polarization of unit length', ctx.implies(h, ctx.eq(dot(pol, pol), 1.)))
    if kind == 'Brewster':
        ctx.ensure('only s polarization is reflected', ctx.implies(h, ctx.eq(dot(pol[:, :3], s) ** 2, 1.)))


@contract('P11', 'thin_lens')
def thin(ctx):
    """ThinLens turns a ray and its polarization together, in the plane of the
    ray and the lens centre, by (distance from the centre)/f; a central ray is
    unchanged."""
    P, pt = ctx.placement('P', zoom=np.array([1., 200., 300.]))
    R, t = pt['R'], pt['t']
    f = ctx.scalar('f', 1., 1e3)
    F = ctx.frame('F')
    al = ctx.scalar('al', -3., 3.)
    d = F[:, 1]
    pol = ctx.np.cos(al) * F[:, 0] + ctx.np.sin(al) * F[:, 2]
    el = ThinLens(pos4d=P, focallength=f)
    # where it hits: distance rho from the centre in direction q, not along the ray
    rho = ctx.scalar('rho', 0.1, 50.)
    be = ctx.scalar('be', 0.1, 3.)
    ctx.requires(ctx.np.sin(be) > 1e-3)
    q = ctx.np.cos(be) * d + ctx.np.sin(be) * F[:, 2]
    centre = ctx.choose('hit', ['off centre', 'centre'])
    ip = ctx.hom(t + rho * q, 1) if centre == 'off centre' else ctx.hom(t, 1)
    start = ctx.hom(t + rho * q - 3. * d, 1)
    el.geometry.intersect = lambda dd, pp: (ctx.np.array([True]), ip, ctx.np.array([[0., 0.]]))
    E = ctx.scalar('E', 0.1, 10.)
    ndir, npos, nE, npol, prob = el.process_photon(ctx.hom(d, 0), start, E, ctx.hom(pol, 0))
    ctx.ensure('position', ctx.alltrue(ctx.eq(npos, ip), axis=0))
    ctx.ensure('no losses', ctx.eq(prob, 1.))
    ctx.ensure('energy', ctx.eq(nE, E))
    ctx.ensure('directions', ctx.all(ctx.eq(ndir[3], 0.), ctx.eq(npol[3], 0.)))
    ctx.ensure('unit length', ctx.eq(dot(ndir, ndir), 1.))
    ctx.ensure('polarization length', ctx.eq(dot(npol, npol), 1.))
    ctx.ensure('polarization perpendicular', ctx.eq(dot(npol, ndir), 0.))
    if centre == 'centre':
        ctx.ensure('central ray unchanged', ctx.alltrue(ctx.eq(ndir[:3], d), axis=0))
    else:
        ctx.ensure('deflection angle', ctx.eq(dot(ndir[:3], d), ctx.np.cos(rho / f)))
        ctx.ensure('stays in the plane of ray and centre', ctx.eq(dot(ndir[:3], F[:, 0]), 0.))
        ctx.ensure('towards the axis', ctx.eq(dot(ndir[:3], F[:, 2]), -ctx.np.sin(rho / f)))
