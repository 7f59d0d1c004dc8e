"""P13: pixel numbers are an affine image of the position on the detector."""
import warnings
import numpy as np
from marxsvc.contract import contract
from marxsvc.photons import photons, unchanged, any_intersection
from marxs.optics import FlatDetector, CircularDetector
from marxs.optics import detector
from marxs.utils import SimulationSetupWarning


@contract('P13', 'flat')
def flat(ctx):
    """FlatDetector: pixel = position / pixel size + (number of pixels - 1)/2,
    with the number of pixels that fit; a warning tells when they do not fit."""
    N = ctx.dim('N')
    P, pt = ctx.placement('P')
    pix = ctx.scalar('pix', 0.01, 5.)
    quiet = ctx.choose('ignore_pixel_warning', [False, True])
    ph, old = photons(ctx, N)
    npix = [ctx.np.round(2. * pt['zoom'][i] / pix) for i in (1, 2)]
    off = [abs(2. * pt['zoom'][i] / pix - npix[i - 1]) for i in (1, 2)]
    if ctx.mode == 'conc':
        for o in off:       # rounding of a tie, and of the limit for the warning
            ctx.requires(abs(o - 0.5) > 1e-6)
            ctx.requires(abs(o - 0.01) > 1e-6)
    ctx.builtin_int(detector)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        el = FlatDetector(pos4d=P, pixsize=pix, ignore_pixel_warning=quiet)
    w = [x for x in w if issubclass(x.category, SimulationSetupWarning)]
    fits = ctx.all(ctx.le(off[0], 0.01), ctx.le(off[1], 0.01))
    ctx.ensure('warned exactly when the pixels do not fit', ~fits if w else (ctx.cond(quiet) | fits))
    hit, ip, il = any_intersection(ctx, el, N, old)
    out = el(ph)
    h = ctx.cond(hit)
    unchanged(ctx, out, old, ['dir', 'polarization', 'energy', 'probability'], h | ~h)
    if 'detpix_x' not in out.colnames:
        ctx.ensure('pixels are there whenever there is a hit', ~h)
        return
    for i, c in enumerate(['detpix_x', 'detpix_y']):
        v = ctx.column(out, c)
        ctx.ensure(c, ctx.implies(h, ctx.eq(v, il[:, i] / pix + (npix[i] - 1) / 2.)))
        ctx.ensure(c + ' of a miss', ctx.implies(~h, ctx.isnan(v)))
        d = ctx.column(out, ['det_x', 'det_y'][i])
        ctx.ensure(c + ' position', ctx.implies(h, ctx.eq(d, il[:, i])))


@contract('P13', 'flat_edges')
def edges(ctx):
    """On a detector made of a whole number of pixels, the centres of the first
    and last pixels are half a pixel inside of the edges, and the centre of the
    detector is the centre of the pixel grid."""
    N = ctx.dim('N')
    k = ctx.scalar('k', 1, 4000, kind='i')
    pix = ctx.scalar('pix', 0.01, 5.)
    R, t = ctx.frame('R'), ctx.array('t', (3,))
    half = k * pix / 2.
    M = ctx.np.zeros((4, 4))
    M[:3, 0], M[:3, 1], M[:3, 2], M[:3, 3], M[3, 3] = R[:, 0], R[:, 1] * half, R[:, 2] * half, t, 1.
    ctx.builtin_int(detector)
    el = FlatDetector(pos4d=M, pixsize=pix)
    ph, old = photons(ctx, N)
    hit, ip, il = any_intersection(ctx, el, N, old)
    out = el(ph)
    h = ctx.cond(hit)
    if 'detpix_x' not in out.colnames:
        ctx.ensure('pixels are there whenever there is a hit', ~h)
        return
    for i, c in enumerate(['detpix_x', 'detpix_y']):
        v, d = ctx.column(out, c), ctx.column(out, ['det_x', 'det_y'][i])
        ctx.ensure(c + ': distance from the lower edge in pixels', ctx.implies(h, ctx.eq((d + half) / pix, v + 0.5, tol=1e-6)))
        ctx.ensure(c + ': distance from the upper edge in pixels', ctx.implies(h, ctx.eq((half - d) / pix, k - 0.5 - v, tol=1e-6)))


@contract('P13', 'circular')
def circular(ctx):
    """CircularDetector: pixels along the circumference (angle times radius)
    and along the axis."""
    N = ctx.dim('N')
    R, t = ctx.frame('R'), ctx.array('t', (3,))
    r, height = ctx.scalar('r', 0.1, 1e3), ctx.scalar('height', 0.1, 50.)
    pix = ctx.scalar('pix', 0.01, 5.)
    M = ctx.np.zeros((4, 4))
    M[:3, 0], M[:3, 1], M[:3, 2], M[:3, 3], M[3, 3] = R[:, 0] * r, R[:, 1] * r, R[:, 2] * height, t, 1.
    el = CircularDetector(pos4d=M, pixsize=pix)
    ph, old = photons(ctx, N)
    hit, ip, il = any_intersection(ctx, el, N, old)
    out = el(ph)
    h = ctx.cond(hit)
    unchanged(ctx, out, old, ['dir', 'polarization', 'energy', 'probability'], h | ~h)
    if 'detpix_x' not in out.colnames:
        ctx.ensure('pixels are there whenever there is a hit', ~h)
        return
    for i, (c, v) in enumerate([('detpix_x', il[:, 0] * r / pix), ('detpix_y', il[:, 1] / pix)]):
        ctx.ensure(c, ctx.implies(h, ctx.eq(ctx.column(out, c), v)))
        ctx.ensure(c + ' of a miss', ctx.implies(~h, ctx.isnan(ctx.column(out, c))))
        ctx.ensure(c + ' position', ctx.implies(h, ctx.eq(ctx.column(out, ['det_phi', 'det_y'][i]), il[:, i])))


@contract('P13', 'energy_redistribution', bounded='random tables of up to 17 photons and 5 energies')
def redistribution(ctx):
    """CCDRedistNormal: each photon that hits gets an energy drawn from a normal
    distribution around its own energy with the width tabulated for it (sigma or
    FWHM); the true energy and photons that miss are unchanged."""
    import astropy.units as u
    from astropy.table import QTable
    N = ctx.dim('N')
    n = int(ctx.rng.randint(2, 6))
    e = np.sort(ctx.array('tab_e', (n,), 0.1, 12.)) + 1e-3 * np.arange(n)
    s = ctx.array('tab_s', (n,), 0.01, 0.3)
    kind = ctx.choose('width', ['sigma', 'FWHM'])
    unit = ctx.choose('unit', [u.keV, u.eV])
    tab = QTable({'energy': e * u.keV, kind: (s * u.keV).to(unit)})
    ph, old = photons(ctx, N)
    ph['energy'].unit = u.keV
    el = detector.CCDRedistNormal(tab_width=tab)
    hit, ip, il = any_intersection(ctx, el, N, old)
    drawn = []

    class Norm(object):
        def rvs(self, loc=0, scale=1, size=None, **k):
            loc, scale = u.Quantity(loc).to_value(u.keV), u.Quantity(scale).to_value(u.keV)
            z = ctx.rng.normal(size=np.shape(loc))
            drawn.append((loc, scale, z))
            return (loc + scale * z) * u.keV
    ctx.patch(detector, 'norm', Norm())
    out = el(ph)
    h = ctx.cond(hit)
    unchanged(ctx, out, old, ['dir', 'polarization', 'energy', 'probability'], h | ~h)
    if hit.sum() == 0:
        return
    ctx.ensure('drawn once', len(drawn) == 1)
    loc, scale, z = drawn[0]
    ctx.ensure('around the energy of the photon', ctx.eq(loc, old['energy'][hit]))
    sig = s if kind == 'sigma' else s / (2 * np.sqrt(2 * np.log(2)))
    ctx.ensure('with the width at the energy of the photon', ctx.eq(scale, np.interp(old['energy'][hit], e, sig)))
    got = ctx.column(out, 'energy_detected')
    ctx.ensure('recorded', ctx.eq(got[hit], loc + scale * z))
    ctx.ensure('misses', ctx.implies(~h, ctx.isnan(got)))
