"""P15: sources generate the time, energy and polarization asked for."""
import numpy as np
import astropy.units as u
from astropy.table import QTable
from astropy.coordinates import SkyCoord
from marxsvc.contract import contract
from marxsvc.photons import polarization_by_contract
from marxs.source import basesources as bs
from marxs.source.basesources import Source, SourceSpecificationError
from marxs.source import (PointSource, DiskSource, SphericalDiskSource, GaussSource, SymbolFSource, RadialDistributionSource,
                          LabPointSourceCone, FarLabPointSource, labSource)
from marxs.source.basesources import poisson_process


@contract('P15', 'times_constant')
def times(ctx):
    """A constant flux gives photons at a fixed rate times area from time zero
    on, all of them before the end of the exposure."""
    rate, T = ctx.scalar('rate', 0.01, 10.), ctx.scalar('T', 0.1, 100.)
    A = ctx.scalar('A', 0.1, 10.)
    case = ctx.choose('units', ['cm2', 'mm2', 'ks', 'none'])
    area, expo, flux = A * u.cm**2, T * u.s, rate / u.s / u.cm**2
    period = 1. / (rate * A)
    if case == 'mm2':
        area, period = A * u.mm**2, 100. / (rate * A)
    elif case == 'ks':
        expo, T = (T / 1000.) * u.ks, T
        flux, period = rate / u.min / u.cm**2, 60. / (rate * A)
    elif case == 'none':
        area, flux, period = None, rate / u.s, 1. / rate
    k = T / period
    if ctx.mode == 'conc':
        ctx.requires(abs(k - np.round(k)) > 1e-6)
    src = Source(flux=flux, geomarea=area)
    t = src.generate_times(expo)
    v = t.to_value(u.s)
    n = ctx.np.sum(ctx.np.ones(v.shape))
    ctx.ensure('number of photons', ctx.all(ctx.lt((n - 1) * period, T), ctx.le(T, n * period)))
    ctx.ensure('evenly spaced from zero', ctx.eq(v, ctx.np.arange(v.shape[0]) * period))
    ctx.ensure('inside the exposure', ctx.all(ctx.le(0., v), ctx.le(v, T)))


@contract('P15', 'times_function')
def timesf(ctx):
    """A function for the flux gets the exposure time and the area; its result is used as is."""
    N = ctx.dim('N')
    T, A = ctx.scalar('T', 0.1, 100.), ctx.scalar('A', 0.1, 10.)
    res = ctx.array('t', (N,), 0., 1000.) * u.s
    got = []

    def flux(*a):
        got.append(a)
        return res
    src = Source(flux=flux, geomarea=A * u.cm**2)
    t = src.generate_times(T * u.s)
    ctx.ensure('called once with two arguments', len(got) == 1 and len(got[0]) == 2)
    ctx.ensure('exposure time', ctx.eq(got[0][0].to_value(u.s), T))
    ctx.ensure('area', ctx.eq(got[0][1].to_value(u.cm**2), A))
    ctx.ensure('result', ctx.eq(t.to_value(u.s), res.to_value(u.s)))
    for bad in (7.3, [1, 2] / u.s / u.cm**2, 'many'):
        ctx.raises('other specifications are refused', SourceSpecificationError, Source(flux=bad).generate_times, 5. * u.s)


def pdf_contract(ctx):
    """RandomArbitraryPdf by its contract (P17): some value for every photon;
    the tables it is given are recorded."""
    calls = []

    class Pdf(object):
        def __init__(self, x, pdf, **kw):
            calls.append({'x': x, 'pdf': pdf, 'kw': kw})

        def __call__(self, n):
            if ctx.mode == 'sym':
                from marxsvc.symarr import toshape
                shape = toshape(n)
            else:
                shape = (n,)
            v = ctx.array('pdf.out%d' % len(calls), shape, 0., 50.)
            calls[-1]['out'], calls[-1]['n'] = v, n
            return v
    ctx.patch(bs, 'RandomArbitraryPdf', Pdf)
    return calls


@contract('P15', 'energies')
def energies(ctx):
    """Energies come from the number, function, or table given."""
    N = ctx.dim('N')
    t = ctx.array('t', (N,), 0., 1000.) * u.s
    case = ctx.choose('energy', ['keV', 'erg', 'wavelength', 'function', 'table'])
    val = ctx.scalar('val', 0.1, 50.)
    if case in ('keV', 'erg', 'wavelength'):
        q, want = {'keV': (val * u.keV, val),
                   'erg': (val * u.erg, val),
                   'wavelength': (val * u.nm, 1.2398419843320026 / val)}[case]
        e = Source(energy=q).generate_energies(t)
        f = {'keV': 1., 'erg': u.erg.to(u.keV), 'wavelength': 1.}[case]
        ctx.ensure('constant energy', ctx.eq(e.to_value(u.keV) / f, want + 0. * t.value, tol=1e-6))
    elif case == 'function':
        out = ctx.array('e', (N,), 0.1, 10.)
        got = []

        def f(x):
            got.append(x)
            return out * u.eV
        e = Source(energy=f).generate_energies(t)
        ctx.ensure('called once', len(got) == 1)
        ctx.ensure('with the times', ctx.eq(got[0].to_value(u.s), t.to_value(u.s)))
        ctx.ensure('its result', ctx.eq(e.to_value(u.eV), out))
    else:
        ne = ctx.choose('bins', [2, 3])
        tab = {'energy': ctx.array('te', (ne,), 0.1, 10.), 'fluxdensity': ctx.array('tf', (ne,), 0., 10.)}

        class Tab(object):
            columns = 1

            def __getitem__(self, c):
                return tab[c] * (u.eV if c == 'energy' else 1 / (u.s * u.cm**2 * u.eV))
        calls = pdf_contract(ctx)
        e = Source(energy=Tab()).generate_energies(t)
        ctx.ensure('one distribution', len(calls) == 1 and not calls[0]['kw'])
        ctx.ensure('bin edges in keV', ctx.eq(calls[0]['x'], tab['energy'] / 1000.))
        ctx.ensure('flux density of each bin', ctx.eq(calls[0]['pdf'][1:], tab['fluxdensity'][1:] * 1000.))
        ctx.ensure('no photons below the first edge', ctx.eq(calls[0]['pdf'][0], 0.))
        ctx.ensure('drawn energies', ctx.eq(e.to_value(u.keV), calls[0]['out']))
    ctx.shape_is('one for each photon', e.to_value(u.keV), (N,))


@contract('P15', 'polarization')
def polarization(ctx):
    """Polarization angles: one angle, uniformly random, function, or table."""
    N = ctx.dim('N')
    t, e = ctx.array('t', (N,), 0., 1000.) * u.s, ctx.array('e', (N,), 0.1, 10.) * u.keV
    case = ctx.choose('pol', ['rad', 'deg', 'random', 'function', 'table'])
    val = ctx.scalar('val', 0., 6.)
    if case in ('rad', 'deg'):
        q = val * (u.rad if case == 'rad' else u.deg)
        p = Source(polarization=q).generate_polarization(t, e)
        ctx.ensure('constant angle', ctx.eq(p.to_value(u.rad), val * (1. if case == 'rad' else np.pi / 180.) + 0. * t.value))
    elif case == 'random':
        d = ctx.draws()
        p = Source().generate_polarization(t, e)
        d.need(u=1)
        ctx.ensure('uniform over the full circle', ctx.eq(p.to_value(u.rad), 2 * np.pi * d.u[0]))
    elif case == 'function':
        out = ctx.array('p', (N,), 0., 6.)
        got = []

        def f(*x):
            got.append(x)
            return out * u.deg
        p = Source(polarization=f).generate_polarization(t, e)
        ctx.ensure('called once', len(got) == 1 and len(got[0]) == 2)
        ctx.ensure('with the times', ctx.eq(got[0][0].to_value(u.s), t.to_value(u.s)))
        ctx.ensure('and the energies', ctx.eq(got[0][1].to_value(u.keV), e.to_value(u.keV)))
        ctx.ensure('its result', ctx.eq(p.to_value(u.deg), out))
    else:
        ne = ctx.choose('bins', [2, 3])
        tab = {'angle': ctx.array('ta', (ne,), 0., 360.), 'probabilitydensity': ctx.array('tf', (ne,), 0., 10.)}

        class Tab(object):
            columns = 1

            def __getitem__(self, c):
                return tab[c] * (u.deg if c == 'angle' else 1 / u.deg)
        calls = pdf_contract(ctx)
        p = Source(polarization=Tab()).generate_polarization(t, e)
        ctx.ensure('one distribution', len(calls) == 1 and not calls[0]['kw'])
        ctx.ensure('bin edges in rad', ctx.eq(calls[0]['x'], tab['angle'] * np.pi / 180.))
        ctx.ensure('density of each bin', ctx.eq(calls[0]['pdf'], tab['probabilitydensity'] * 180. / np.pi))
        ctx.ensure('drawn angles', ctx.eq(p.to_value(u.rad), calls[0]['out']))
    ctx.shape_is('one for each photon', p.to_value(u.rad), (N,))


@contract('P15', 'wrong_length')
def wronglen(ctx):
    """Functions that return the wrong number of values, and other
    specifications, are refused."""
    N = ctx.dim('N')
    n, m = ctx.choose('sizes', [(3, 2), (2, 3), (0, 1), (1, 4)])
    t, e = ctx.array('t', (n,), 0., 1000.) * u.s, ctx.array('e', (n,), 0.1, 10.) * u.keV
    out = ctx.array('out', (m,), 0.1, 6.)
    ctx.raises('energy function', SourceSpecificationError, Source(energy=lambda x: out * u.keV).generate_energies, t)
    ctx.raises('polarization function', SourceSpecificationError, Source(polarization=lambda x, y: out * u.rad).generate_polarization, t, e)
    for bad in (7.3, [1., 2., 3.] * u.keV, 'blue'):
        ctx.raises('energy specification', SourceSpecificationError, Source(energy=bad).generate_energies, t)
    for bad in (7.3, [1., 2.] * u.rad, 'up'):
        ctx.raises('polarization specification', SourceSpecificationError, Source(polarization=bad).generate_polarization, t, e)


@contract('P15', 'table')
def phtable(ctx):
    """The photon table has the times, energies and angles in s, keV and rad and
    probability one for all."""
    N = ctx.dim('N')
    t, e, p = ctx.array('t', (N,), 0., 1000.), ctx.array('e', (N,), 0.1, 10.), ctx.array('p', (N,), 0., 360.)
    T = ctx.scalar('T', 0.1, 100.)
    unit = ctx.choose('units', [(u.s, u.keV, u.rad, 1., 1., 1.), (u.min, u.eV, u.deg, 60., 1e-3, np.pi / 180.)])
    got = []

    def log(name, res):
        def f(*a):
            got.append((name, a))
            return res
        return f
    src = Source(flux=log('t', t * unit[0]), energy=log('e', e * unit[1]), polarization=log('p', p * unit[2]))
    tab = src(T * u.ks)
    ctx.ensure('each specification is used once, in order', [g[0] for g in got] == ['t', 'e', 'p'])
    for c, w in (('time', t * unit[3]), ('energy', e * unit[4]), ('polangle', p * unit[5]), ('probability', 1. + 0. * t)):
        ctx.ensure(c, ctx.eq(ctx.column(tab, c), w))
    for c, w in (('time', u.s), ('energy', u.keV), ('polangle', u.rad)):
        ctx.ensure('unit of ' + c, tab[c].unit == w)
    ctx.ensure('exposure time', ctx.eq(tab.meta['EXPOSURE'][0], T * 1000.))


def lab_polarization(ctx, tab, calls):
    ctx.ensure('polarization vectors are calculated once', len(calls) == 1)
    d, a, out = calls[0]
    ctx.ensure('polarization for the directions', ctx.alltrue(ctx.eq(d, ctx.column(tab, 'dir')), axis=1))
    ctx.ensure('polarization for the angles', ctx.eq(a, ctx.column(tab, 'polangle')))
    ctx.ensure('polarization', ctx.alltrue(ctx.eq(ctx.column(tab, 'polarization'), out), axis=1))


@contract('P15', 'cone')
def cone(ctx):
    """LabPointSourceCone: unit directions around the axis of the cone within
    the opening angle, uniform in solid angle, all from the same point."""
    N = ctx.dim('N', nonempty=True)
    th, ph = ctx.scalar('th', 0., 3.1416), ctx.scalar('ph', -3.2, 3.2)
    case = ctx.choose('axis', ['any', '+z', '-z', 'x'])
    if case == 'any':
        ctx.requires(ctx.np.sin(th) > 1e-3)
        k = ctx.scalar('k', 0.1, 5.)
        axis = [ctx.np.sin(th) * ctx.np.cos(ph), ctx.np.sin(th) * ctx.np.sin(ph), ctx.np.cos(th)]
        give = ctx.np.array([k * x for x in axis])
    else:
        axis = {'+z': [0., 0., 1.], '-z': [0., 0., -1.], 'x': [1., 0., 0.]}[case]
        give = [2. * x for x in axis]
    half = ctx.scalar('half', 0.01, 3.14159)
    pos = ctx.array('pos', (3,))
    t = ctx.array('t', (N,), 0., 1000.)
    pols = polarization_by_contract(ctx, labSource)
    src = LabPointSourceCone(position=pos, direction=give, half_opening=half, flux=lambda *a: t * u.s)
    d = ctx.draws()
    if ctx.mode == 'conc':
        uu = ctx.array('u', (2, N), 0.001, 0.999)
        d.replay_u = [ctx.array('up', (N,), 0., 1.), uu[0], uu[1]]
    tab = src(5. * u.s)
    d.need(u=3)
    D, X, pl = ctx.column(tab, 'dir'), ctx.column(tab, 'pos'), ctx.column(tab, 'polarization')
    ctx.ensure('start', ctx.alltrue(ctx.eq(X, ctx.hom(pos, 1) + 0. * X), axis=1))
    ctx.ensure('unit length', ctx.eq(np.sum(D[:, :3] ** 2, axis=1), 1.))
    ctx.ensure('direction', ctx.eq(D[:, 3], 0.))
    ca = np.dot(D[:, :3], ctx.np.array(axis))
    ctx.ensure('inside the cone', ctx.le(ctx.np.cos(half), ca))
    # uniform in solid angle: the cosine to the axis is linear in one of the random numbers
    lin = [ctx.eq(ca, 1. - w * (1. - ctx.np.cos(half))) for w in (d.u[1], d.u[2])]
    ctx.ensure('uniform in solid angle', ctx.any(*lin))
    lab_polarization(ctx, tab, pols)


@contract('P15', 'far_lab')
def farlab(ctx):
    """FarLabPointSource: photons start in the rectangle and come from the source position."""
    N = ctx.dim('N', nonempty=True)
    P, pt = ctx.placement('P')
    s = ctx.array('s', (3,))
    pols = polarization_by_contract(ctx, labSource)
    t = ctx.array('t', (N,), 0., 1000.)
    src = FarLabPointSource(s, pos4d=P, flux=lambda *a: t * u.s)
    d = ctx.draws()
    tab = src(5. * u.s)
    d.need(u=3)
    X, D = ctx.column(tab, 'pos'), ctx.column(tab, 'dir')
    ctx.ensure('direction from the source', ctx.alltrue(ctx.eq(D[:, :3], X[:, :3] - s), axis=1))
    ctx.ensure('direction', ctx.eq(D[:, 3], 0.))
    ctx.ensure('point', ctx.eq(X[:, 3], 1.))
    want = [pt['t'] + (2 * a - 1.)[:, None] * P[:3, 1] + (2 * b - 1.)[:, None] * P[:3, 2] for a, b in ((d.u[1], d.u[2]), (d.u[2], d.u[1]))]
    ctx.ensure('uniform over the rectangle', ctx.any(*[ctx.alltrue(ctx.eq(X[:, :3], w), axis=1) for w in want]))
    lab_polarization(ctx, tab, pols)


@contract('P15', 'poisson', bounded='random rates and exposure times with up to 200 photons', conc_s=5, trials=60)
def poisson(ctx):
    """poisson_process: waiting times are exponential with the mean 1 / (rate * area);
    all photons up to the end of the exposure, in order."""
    rate, A, T = ctx.scalar('rate', 0.01, 2.), ctx.scalar('A', 0.1, 10.), ctx.scalar('T', 0.01, 10.)
    f = poisson_process(rate / u.s / u.cm**2)
    rec = []

    class Expon(object):
        @staticmethod
        def rvs(scale=1, size=1, **kw):
            scale = float(scale.value if hasattr(scale, 'value') else scale)
            x = ctx.rng.exponential(size=size) * (10. if size == 0 else 1.)
            rec.append(x)
            if len(rec) > 10000:
                raise AssertionError('does not terminate')
            return x * scale
    ctx.patch(bs, 'expon', Expon)
    t = f(T * u.s, A * u.cm**2).to_value(u.s)
    ref = np.cumsum(np.concatenate(rec)) / (rate * A)
    ctx.ensure('enough waiting times were drawn', ref.size > 0 and ref[-1] >= T * (1 - 1e-12))
    ref = ref[ref < T]
    ctx.ensure('all photons of the exposure', len(ref) == len(t) and bool(np.allclose(ref, t)))
    ctx.raises('rate must be one number', ValueError, poisson_process, [1., 2.] / u.s / u.cm**2)


def sky_photons(ctx, cls, N, **kw):
    """run a source somewhere on the sky with N photons; returns the components of the
    photon position along the direction to the source, to the North and to the East"""
    from contracts.p16 import axes
    lon, lat = ctx.scalar('lon', 0., 6.28), ctx.scalar('lat', -1.5, 1.5)
    t = ctx.array('t', (N,), 0., 1000.)
    tab = cls(coords=ctx.sky(lon, lat), flux=lambda *a: t * u.s, energy=1. * u.keV, polarization=0. * u.rad, **kw)(5. * u.s)
    for c in ('ra', 'dec'):
        ctx.ensure('unit of ' + c, tab[c].unit == u.deg)
        ctx.shape_is('number of ' + c, ctx.column(tab, c), (N,))
    ctx.ensure('coordinate system', tab.meta['COORDSYS'][0] == 'ICRS')
    ctx.ensure('times are kept', ctx.eq(ctx.column(tab, 'time'), t))
    s = ctx.direction(ctx.column(tab, 'ra') * np.pi / 180., ctx.column(tab, 'dec') * np.pi / 180.)
    X, n, e = axes(ctx, lon, lat)
    return tab, (lon, lat), [np.dot(s, x) for x in (X, n, e)]


def at_polar(ctx, comp, d, us):
    """photons are at distance d and uniformly random position angle"""
    n = ctx.np
    alt = []
    for w in us:
        p = 2 * np.pi * w
        alt.append(ctx.all(ctx.cond(ctx.eq(comp[1], n.sin(d) * n.cos(p))), ctx.cond(ctx.eq(comp[2], n.sin(d) * n.sin(p)))))
    ctx.ensure('distance from the source', ctx.eq(comp[0], n.cos(d)))
    ctx.ensure('uniformly random position angle', ctx.any(*alt))


@contract('P15', 'point_source')
def point(ctx):
    """All photons of a point source come from its position."""
    N = ctx.dim('N')
    tab, (lon, lat), comp = sky_photons(ctx, PointSource, N)
    ctx.ensure('right ascension', ctx.eq(ctx.column(tab, 'ra'), lon * 180. / np.pi + 0. * ctx.column(tab, 'time')))
    ctx.ensure('declination', ctx.eq(ctx.column(tab, 'dec'), lat * 180. / np.pi + 0. * ctx.column(tab, 'time')))


@contract('P15', 'radial_source')
def radial(ctx):
    """Sources with a radial distribution: photons at the distances given in all directions."""
    N = ctx.dim('N', nonempty=True)
    d = ctx.array('d', (N,), 0., 3.)
    unit = ctx.choose('unit', ['rad', 'deg'])
    got = []

    def f(n):
        got.append(n)
        return d * u.rad if unit == 'rad' else d * 180. / np.pi * u.deg
    dr = ctx.draws()
    tab, pos, comp = sky_photons(ctx, RadialDistributionSource, N, radial_distribution=f)
    dr.need(u=1)
    ctx.ensure('the distribution is used once', len(got) == 1)
    ctx.ensure('for all photons', ctx.eq(got[0], ctx.np.sum(ctx.np.ones(d.shape))))
    at_polar(ctx, comp, d, dr.u)


@contract('P15', 'disk_source')
def disk(ctx):
    """Disks and rings are filled evenly: the area inside of a photon is uniformly
    random between the inner and outer radius."""
    N = ctx.dim('N', nonempty=True)
    a, b = ctx.scalar('inner', 0., 1.), ctx.scalar('outer', 0., 2.)
    ctx.requires(a < b)
    case = ctx.choose('case', ['flat', 'flat full', 'sphere', 'sphere full'])
    kw = {'a_outer': b * 180. / np.pi * u.deg, 'a_inner': a * u.rad}
    if 'full' in case:
        a = 0. * a
        del kw['a_inner']
    dr = ctx.draws()
    cls = DiskSource if 'flat' in case else SphericalDiskSource
    n = ctx.np
    tab, pos, comp = sky_photons(ctx, cls, N, **kw)
    dr.need(u=2)
    alt = []
    for w, v in ((dr.u[0], dr.u[1]), (dr.u[1], dr.u[0])):
        d = n.sqrt(a * a + v * (b * b - a * a)) if 'flat' in case else n.arccos((1. - v) * n.cos(a) + v * n.cos(b))
        p = 2 * np.pi * w
        alt.append(ctx.all(ctx.cond(ctx.eq(comp[0], n.cos(d))), ctx.cond(ctx.eq(comp[1], n.sin(d) * n.cos(p))),
                           ctx.cond(ctx.eq(comp[2], n.sin(d) * n.sin(p)))))
    ctx.ensure('evenly filled', ctx.any(*alt))


@contract('P15', 'gauss_source')
def gauss(ctx):
    """Gaussian sources: normally distributed offsets in both directions."""
    N = ctx.dim('N', nonempty=True)
    sig = ctx.scalar('sig', 0.001, 0.2)
    dr = ctx.draws()
    if ctx.mode == 'conc':
        dr.replay_z = [ctx.array('z', (N,), -3., 3.), ctx.array('z2', (N,), -3., 3.)]
    unit = ctx.choose('unit', ['rad', 'deg'])
    tab, pos, comp = sky_photons(ctx, GaussSource, N, sigma=sig * u.rad if unit == 'rad' else sig * 180. / np.pi * u.deg)
    ctx.ensure('two normal random numbers for each photon', len(dr.z) == 2)
    n = ctx.np
    alt = []
    for y, z in ((dr.z[0], dr.z[1]), (dr.z[1], dr.z[0])):
        y, z = sig * y, sig * z
        alt.append(ctx.all(ctx.cond(ctx.eq(comp[0], n.cos(y) * n.cos(z))), ctx.cond(ctx.eq(comp[1], n.sin(z))),
                           ctx.cond(ctx.eq(comp[2], n.sin(y) * n.cos(z)))))
    ctx.ensure('offset to East and North', ctx.any(*alt))


@contract('P15', 'letter_source')
def letter(ctx):
    """The letter F: photons on its three bars."""
    N = ctx.dim('N', nonempty=True)
    size = ctx.scalar('size', 0.01, 1.)
    dr = ctx.draws()
    unit = ctx.choose('unit', ['deg', 'arcmin'])
    tab, (lon, lat), comp = sky_photons(ctx, SymbolFSource, N, size=size * u.deg if unit == 'deg' else 60. * size * u.arcmin)
    x = (ctx.column(tab, 'ra') - lon * 180. / np.pi) / size
    if ctx.mode == 'conc':
        x = ((ctx.column(tab, 'ra') - lon * 180. / np.pi + 180.) % 360. - 180.) / size
    y = (ctx.column(tab, 'dec') - lat * 180. / np.pi) / size
    z = 0. * x

    def on(v, lo, hi):
        return ctx.cond(ctx.le(lo, v)) & ctx.cond(ctx.le(v, hi))
    ctx.ensure('on the bars of the letter', ctx.any(on(x, z, z + 1.) & on(y, z, z), on(x, z + 1., z + 1.) & on(y, z, z + .5), on(x, z + .8, z + .8) & on(y, z, z + .3)))
