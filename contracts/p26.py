"""P26: Order sorting windows select the photons that belong to the order."""
import os
import types
import numpy as np
import astropy.units as u
from marxsvc.contract import contract
from marxs.reduction import ogip, osip
from marxs.optics import detector

# ratios with other orders are exact numbers
ORDERS = [-8, -4, -1, 1, 2, 4]


class Response(object):
    """Contract of the energy response of a CCD: a distribution of the measured
    energy (in eV here) for each true energy."""

    def __init__(self, ctx):
        self.F = ctx.userfunc('cdf', 0., 1., gen=lambda r: None) if ctx.mode == 'sym' else \
            (lambda x, e: .5 + np.arctan((x - e) / (20 + .01 * e)) / np.pi)
        self.a = ctx.userfunc('below', 1., 100.)
        self.b = ctx.userfunc('above', 1., 100.)

    def cdf(self, x, loc):
        return self.F(ev(x) + 0. * ev(loc), ev(loc) + 0. * ev(x))

    def interval(self, alpha, loc):
        loc, np_ = ev(loc), self.np
        al = alpha + 0. * loc
        return np_.stack([loc - self.a(al, loc), loc + self.b(al, loc)]) * u.eV


def ev(q):
    return q.to(u.eV, equivalencies=u.spectral()).value


def make(ctx):
    """order sorting object and the (independently written) half widths of its
    window for an energy in eV"""
    r = Response(ctx)
    r.np = ctx.np
    kind = ctx.choose('window', ['width', 'distance', 'fraction'])
    if kind == 'width':
        h = ctx.scalar('h', 1., 200.)
        unit = ctx.choose('unit of width', [u.eV, u.keV])
        o = osip.FixedWidthOSIP(h * u.eV if unit is u.eV else h / 1000. * u.keV, ccd_redist=r)
        return o, r, lambda E, order: (h + 0. * E, h + 0. * E)
    if kind == 'distance':
        f = ctx.scalar('f', .1, 1.)
        o = osip.FractionalDistanceOSIP(f, ccd_redist=r)
        return o, r, lambda E, order: (f / 2 * E / abs(order), f / 2 * E / abs(order))
    f = ctx.scalar('f', .1, .99)
    o = osip.FixedFractionOSIP(f, ccd_redist=r)
    return o, r, lambda E, order: (r.a(f + 0. * E, E), r.b(f + 0. * E, E))


def energies(ctx, N):
    E = ctx.array('E', (N,), 200., 2000.)
    unit = ctx.choose('unit', [u.eV, u.keV, u.Angstrom])
    return (E * u.eV).to(unit, equivalencies=u.spectral())


def near(ctx, a, b, tol=1e-6):
    """equal but for the rounding of unit conversions"""
    return ctx.le(abs(a - b), tol)


@contract('P26', 'window')
def window(ctx):
    """The window reaches from the energy minus the lower width to the energy plus
    the upper width, whether asked for as range or as widths."""
    N = ctx.dim('N', nonempty=True)
    o, r, w = make(ctx)
    chan = energies(ctx, N)
    order = ctx.choose('order', ORDERS)
    E = ev(chan)
    lo, hi = w(E, order)
    rng, tab = o.osip_range(chan, order), o.osip_tab(chan, order)
    rng, tab = ev(rng), ev(tab)
    for name, x in (('range', rng), ('widths', tab)):
        if not ctx.shape_is('lower and upper number for each energy (%s)' % name, x, (2, N)):
            return
    ctx.ensure('lower end', ctx.all(near(ctx, rng[0], E - lo)))
    ctx.ensure('upper end', ctx.all(near(ctx, rng[1], E + hi)))
    ctx.ensure('lower width', ctx.all(near(ctx, tab[0], lo)))
    ctx.ensure('upper width', ctx.all(near(ctx, tab[1], hi)))


@contract('P26', 'factor', max_paths=2000, assumes=['the cumulative distribution of the CCD response is a function of measured and true energy'])
def factor(ctx):
    """The factor for true order t in the window of order m is the part of the
    response at the true energy, E t / m, which is inside the window of order m at
    E; nothing from the other side or the zeroth order."""
    N = ctx.dim('N', nonempty=True)
    o, r, w = make(ctx)
    chan = energies(ctx, N)
    m, t = ctx.choose('order', ORDERS), ctx.choose('true order', [-6, -5, -2, -1, 0, 1, 2, 6])
    out = o.osip_factor(chan, m, t)
    if m * t <= 0:
        ctx.ensure('nothing from the other side', ctx.all(ctx.eq(out, 0.)))
        return
    E = ev(chan)
    lo, hi = ev(o.osip_range(chan, m))
    T = E * t / m
    if not ctx.shape_is('one factor for each energy', out, (N,)):
        return
    ctx.ensure('part of the response', ctx.all(ctx.eq(out, r.F(hi, T) - r.F(lo, T), tol=1e-9)))
    ctx.ensure('lower end below upper end', ctx.all(ctx.le(lo, hi)))
    # a cumulative distribution increases
    ctx.requires(ctx.all(ctx.le(r.F(lo, T), r.F(hi, T))))
    ctx.ensure('probability', ctx.all(ctx.le(0., out)) & ctx.all(ctx.le(out, 1.)))


@contract('P26', 'touch')
def touch(ctx):
    """Windows with the full distance between orders cover every energy at a place
    on the detector exactly once; smaller ones leave gaps."""
    N = ctx.dim('N', nonempty=True)
    given = ctx.choose('fraction', ['default', 'given']) == 'given'
    f = ctx.scalar('f', .1, .95) if given else 1.
    r = Response(ctx)
    r.np = ctx.np
    o = osip.FractionalDistanceOSIP(f, ccd_redist=r) if given else osip.FractionalDistanceOSIP(ccd_redist=r)
    e1 = ctx.array('e1', (N,), 50., 400.)
    m = ctx.choose('order', [1, 2, 5])
    s = ctx.choose('side', [1, -1])
    a = ev(o.osip_range(e1 * m * u.eV, s * m))
    b = ev(o.osip_range(e1 * (m + 1) * u.eV, s * (m + 1)))
    if not given:
        ctx.ensure('touch', ctx.all(near(ctx, a[1], b[0])))
    else:
        ctx.ensure('gap', ctx.all(near(ctx, b[0] - a[1], (1 - f) * e1)))


class Phi(object):
    """Contract of scipy.stats.norm: one cumulative distribution, symmetric intervals"""

    def __init__(self, ctx):
        self.Phi = ctx.userfunc('Phi', 0., 1., gen=lambda r: None) if ctx.mode == 'sym' else (lambda x: 1 / (1 + np.exp(-x)))
        self.z = ctx.scalar('z', .1, 3.)

    def __call__(self):
        return self

    def cdf(self, x):
        self.unit = getattr(x, 'unit', u.dimensionless_unscaled)
        return self.Phi(getattr(x, 'value', x))

    def interval(self, alpha):
        self.alpha = alpha
        return (-self.z, self.z)


class Table(dict):
    colnames = property(lambda s: list(s))


@contract('P26', 'ccd', sizes='widths tabulated at 1 to 3 energies')
def ccd(ctx):
    """The response of a CCD is a normal distribution around the true energy with
    the tabulated width at the true energy."""
    N = ctx.dim('N', nonempty=True)
    n = ctx.choose('n', [1, 2, 3])
    e0, step = ctx.scalar('e0', .1, .5), ctx.array('step', (n,), .1, 1.)
    te = [e0]
    for i in range(1, n):
        te.append(te[-1] + step[i])
    te = ctx.np.stack([ctx.np.asarray(x) for x in te])
    ts = ctx.array('s', (n,), .01, .3)
    kind, us = ctx.choose('width', [('sigma', u.keV), ('sigma', u.eV), ('FWHM', u.keV)])
    ue = ctx.choose('unit of energy', [u.keV, u.eV])
    tab = Table({'energy': te * u.keV if ue is u.keV else te * 1000. * u.eV,
                 kind: ts * u.keV if us is u.keV else ts * 1000. * u.eV})
    el = detector.CCDRedistNormal(tab_width=tab)
    phi = Phi(ctx)
    ctx.patch(detector, 'norm', phi)
    E, x = ctx.array('E', (N,), .2, 2.), ctx.array('x', (N,), .2, 2.)
    sig = ctx.np.interp(E, te, ts)
    if kind == 'FWHM':
        sig = sig / (2 * np.sqrt(2 * np.log(2)))
    loc = ctx.choose('unit', [u.keV, u.eV])
    loc = E * u.keV if loc is u.keV else E * 1000. * u.eV
    got = el.sig_ccd(loc).to(u.keV).value
    ctx.ensure('width', ctx.all(near(ctx, got, sig, 1e-9)))
    c = el.cdf(x * u.keV, loc)
    ctx.ensure('dimensionless', phi.unit == u.dimensionless_unscaled)
    ctx.ensure('distribution', ctx.all(ctx.eq(getattr(c, 'value', c), phi.Phi((x - E) / got), tol=1e-9)))
    al = ctx.scalar('alpha', .1, .99)
    iv = el.interval(al, loc).to(u.keV).value
    ctx.ensure('part asked for', ctx.eq(phi.alpha, al))
    if ctx.shape_is('lower and upper end', iv, (2, N)):
        ctx.ensure('symmetric interval', ctx.all(near(ctx, iv[0], E - phi.z * got, 1e-9)) & ctx.all(near(ctx, iv[1], E + phi.z * got, 1e-9)))


class Area(dict):
    """Contract of an effective area table: columns or keywords by name"""

    def __init__(self, cols, meta):
        dict.__init__(self, cols)
        self.meta = meta
        self.written = []

    def write(self, *a, **k):
        self.written.append((a, k, dict(self), dict(self.meta)))


@contract('P26', 'apply', max_paths=900)
def apply(ctx):
    """The new area is the area without order sorting, times the factor for the
    energies of the table; applying a second window starts from the same area."""
    N = ctx.dim('N', nonempty=True)
    lo, w = ctx.array('lo', (N,), .2, 1.), ctx.array('w', (N,), .001, .1)
    A = ctx.array('A', (N,), 1., 10.)
    before = ctx.choose('before', ['nothing', 'factors', 'one factor', 'same window'])
    fac = ctx.array('fac', (N,), .1, 1.) if before in ('factors', 'same window') else ctx.scalar('fac', .1, 1.)
    m = ctx.choose('true order', [-4, -2, 1, 8])
    order = ctx.choose('order', [-4, -1, 1, 2])
    cols = {'ENERG_LO': lo * u.keV, 'ENERG_HI': (lo + w) * u.keV, 'SPECRESP': A * u.cm**2}
    if before != 'nothing':
        cols['OSIPFAC'] = fac
        cols['SPECRESP'] = A * fac * u.cm**2
    meta = {'ORDER': ctx.choose('as', [m, str(m)]), 'OTHER': 'o'}
    if before == 'same window':
        meta.update(TRUEORD=str(m), CCDORDER=str(order), INSTRUME='ORDER_%d' % order)
    arf = Area(cols, meta)
    read, dirs, names = [], [], []
    ctx.patch(ogip, 'ARF', types.SimpleNamespace(read=lambda *a, **k: read.append(a) or arf))
    fake = types.SimpleNamespace(makedirs=lambda *a, **k: dirs.append(a), path=os.path)
    ctx.patch(osip, 'os', fake)
    r = Response(ctx)
    r.np = ctx.np
    h = ctx.scalar('h', 1., 200.)
    name = lambda *a, **k: names.append((a, k)) or 'name.arf'
    o = osip.FixedWidthOSIP(h * u.eV, ccd_redist=r, filename_from_meta=name)
    if before == 'same window':
        meta['OSIP'] = o.osip_description
    over = ctx.choose('overwrite', [True, False])
    o.apply_osip('in.arf', 'out', order, outroot='r_', overwrite=over)
    ctx.ensure('one file read and one written', read == [('in.arf',)] and len(arf.written) == 1)
    a, k, c, meta = arf.written[0]
    ctx.ensure('place', a[0] == os.path.join('out', 'r_name.arf') and bool(k['overwrite']) == over and ('out',) in dirs)
    ctx.ensure('keywords', int(meta['TRUEORD']) == m and int(meta['CCDORDER']) == order and int(meta['ORDER']) == m and meta['OTHER'] == 'o' and meta['OSIP'] == o.osip_description)
    ctx.ensure('name from the keywords', names and all(names[-1][1].get(x) == meta[x] for x in ('TRUEORD', 'CCDORDER', 'ORDER')))
    E = 1000. * (lo + w / 2)
    f = c['OSIPFAC']
    area = c['SPECRESP'].to(u.cm**2).value
    if m * order < 0:
        ctx.ensure('nothing from the other side', ctx.all(ctx.eq(f, 0.)) & ctx.all(ctx.eq(area, 0.)))
        return
    T = E / m * order
    ctx.ensure('factor', ctx.all(ctx.eq(f, r.F(T + h, E) - r.F(T - h, E), tol=1e-9)))
    ctx.ensure('area', ctx.all(ctx.eq(area, f * A, tol=1e-9)))
    ctx.ensure('energies not changed', ctx.all(ctx.eq(c['ENERG_LO'].value, lo)))


@contract('P26', 'apply_all', sizes='1 or 2 orders, 1 to 3 offsets')
def apply_all(ctx):
    """Each order asked for is processed with each offset that leads to an order on
    the same side, if the file exists, and nothing else."""
    orders = ctx.choose('orders', [[5], [-5], [1], [-1, 2], [-4, -5]])
    offs = ctx.choose('offsets', [[-1, 0, 1], [0], [1], [-2, 3], None])
    missing = ctx.choose('missing', [[], [5], [-1, -2, -3, -4, -5, -6, -7], list(range(-9, 10))])
    calls, plots = [], []
    name = lambda filetype, **k: '%s_%+d_%s' % (filetype, k['ORDER'], k.get('CHAN'))
    kw = {} if offs is None else {'offset_orders': offs}
    o = osip.FixedWidthOSIP(1. * u.eV, ccd_redist=None, filename_from_meta=name, **kw)
    offs = [-1, 0, 1] if offs is None else offs

    def one(inputarf, outpath, order, outroot='', overwrite=False):
        for m in missing:
            if inputarf.endswith('_%+d_a' % m):
                raise FileNotFoundError
        calls.append((inputarf, outpath, order, outroot, overwrite))
    o.apply_osip = one
    o.plot_summary = lambda arf, orders, path, root='': plots.append((arf, list(orders), path, root))
    o.plot_summed_arf = lambda path: plots.append(path)
    o.apply_osip_all('in', 'out', orders, inroot='i_', outroot='o_', overwrite=True, filename_from_meta_kwargs={'CHAN': 'a'})
    want = [(os.path.join('in', 'i_arf_%+d_a' % (m + t)), 'out', m, 'o_', True)
            for m in orders for t in offs if m * (m + t) > 0 and m + t not in missing]
    ctx.ensure('all of them and nothing else', sorted(calls) == sorted(want))
    ctx.ensure('summary', len(plots) == (2 if want else 0) and (not want or plots[0][0] in [x[0] for x in want] and plots[0][1:] == (orders, 'out', 'o_') and plots[1] == 'out'))
