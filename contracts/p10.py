"""P10: diffraction orders are drawn from exactly the efficiency given."""
import numpy as np
from marxsvc.contract import contract
from marxsvc.photons import photons, unchanged, any_intersection, transport_by_contract
from marxs.optics import grating
from marxs.optics.grating import OrderSelector, EfficiencyFile, FlatGrating, CATGrating
from marxs.missions.mitsnl import catgrating as cg


def probs(ctx, name, n, total=1.):
    """n probabilities with a sum in (0, total]"""
    p = ctx.array(name, (n,), 0., 1., gen=lambda r, s: (lambda x: x / x.sum() * r.choice([1., .5, .2]) * total * (1 - 1e-12))(
        r.rand(*s) * r.choice([0., 1., 1.], size=s) + 1e-3 * (np.arange(s[0]) == 0)))
    ctx.requires(np.sum(p) <= total)
    ctx.requires(np.sum(p) > 0)
    return p


@contract('P10', 'order_selector')
def selector(ctx):
    """OrderSelector: one draw from the list given, each order with its share of
    the total; the total is the probability of every photon."""
    N = ctx.dim('N')
    n = ctx.choose('n', [1, 2, 4])
    orders = np.array([3, -2, 0, 7])[:n]
    given = ctx.choose('p', ['given', 'list', 'default'])
    if given == 'default':
        p = np.ones(n) / n
        sel = OrderSelector(orders)
    else:
        p = probs(ctx, 'p', n)
        sel = OrderSelector(orders, p=p if given == 'given' else [x for x in p])
    E = ctx.array('E', (N,), 0.1, 10.)
    d = ctx.draws()
    o, pr = sel(E, None, None)
    d.need(choices=1)
    c = d.choices[0]
    ctx.shape_is('one order for each photon', o, (N,))
    ctx.ensure('order drawn', ctx.eq(o, ctx.np.array(orders)[c['ind']]))
    cp = c['p'] if c['p'] is not None else np.ones(n) / n
    for k in range(n):
        ctx.ensure('share of order %d' % k, ctx.eq(cp[k] * np.sum(p), p[k]))
    ctx.ensure('total is the probability', ctx.eq(pr, np.sum(p) + 0. * E))
    # one photon alone
    o1, p1 = sel(1.5)
    d.need(choices=2)
    c = d.choices[1]
    ctx.ensure('single photon: order', ctx.eq(o1, ctx.np.array(orders)[c['ind']]))
    for k in range(n):
        ctx.ensure('single photon: share', ctx.eq((c['p'] if c['p'] is not None else np.ones(n) / n)[k] * np.sum(p), p[k]))
    ctx.ensure('single photon: probability', ctx.eq(p1, np.sum(p)))


@contract('P10', 'order_selector_refusals')
def refusals(ctx):
    """Probabilities that are negative, add up to more than one, or do not match
    the list of orders are refused."""
    p = ctx.array('p', (3,), 0., 1.)
    ctx.raises('too few', ValueError, OrderSelector, [1, 2, 3, 4], p=p)
    ctx.raises('too many', ValueError, OrderSelector, [1, 2], p=p)
    which = ctx.choose('bad', ['sum', 'negative'])
    q = ctx.array('q', (3,), -1., 1.)
    if which == 'sum':
        ctx.requires(np.sum(q) > 1 + 1e-9)
    else:
        k = ctx.choose('k', [0, 1, 2])
        ctx.requires(q[k] < 0)
    ctx.raises(which, ValueError, OrderSelector, [1, 2, 3], p=q)


@contract('P10', 'efficiency_file', bounded='tables with 1-3 energies and 1-3 orders; 0-2 photons', conc_s=4)
def efffile(ctx):
    """EfficiencyFile: the row nearest in energy is used; order i is chosen
    exactly if the random number lies in the i-th slice of its cumulative
    efficiency, and the probability is the total of that row."""
    ne = ctx.choose('rows', [1, 2, 3])
    no = ctx.choose('orders', [1, 2, 3])
    nph = ctx.choose('photons', [0, 1, 2])
    tab_e = ctx.array('tab_e', (ne,), 0.1, 10.)
    tab = ctx.np.zeros((ne, no + 1))
    tab[:, 0] = tab_e
    rows = [probs(ctx, 'row%d' % i, no) for i in range(ne)]
    for i in range(ne):
        tab[i, 1:] = rows[i]
    if ctx.mode == 'conc':
        ctx.patch(np, 'loadtxt', lambda *a, **k: np.array(tab))
    else:
        ctx.patch(ctx.np, 'loadtxt', lambda *a, **k: ctx.np.array(tab))
    orders = [2, -1, 5][:no]
    sel = EfficiencyFile('name', orders)
    ctx.raises('orders do not match the table', ValueError, EfficiencyFile, 'name', orders + [9])
    E = ctx.array('E', (nph,), 0.1, 10.)
    d = ctx.draws()
    o, pr = sel(E, None, None)
    d.need(u=nph)
    for j in range(nph):
        for i in range(ne):
            near = ctx.all(*[ctx.lt(abs(tab_e[i] - E[j]), abs(tab_e[k] - E[j])) for k in range(ne) if k != i] or [ctx.cond(True)])
            tot = np.sum(rows[i])
            ctx.ensure('total efficiency at the energy of the photon', ctx.implies(near, ctx.eq(pr[j], tot)))
            for k in range(no):
                lo, hi = np.sum(rows[i][:k]), np.sum(rows[i][:k + 1])
                u = d.u[j] * tot
                inside = ctx.all(ctx.le(lo, u), ctx.lt(u, hi))
                ctx.ensure('order of the slice', ctx.implies(ctx.all(near, inside), ctx.eq(o[j], orders[k])))


@contract('P10', 'efficiency_file_zero', bounded='random tables')
def effzero(ctx):
    """A row without any efficiency gives probability zero."""
    no = ctx.choose('orders', [1, 2, 3])
    tab = np.zeros((2, no + 1))
    tab[:, 0] = [1., 2.]
    tab[0, 1:] = ctx.array('p', (no,), 0.01, 0.3)
    ctx.patch(np, 'loadtxt', lambda *a, **k: np.array(tab))
    sel = EfficiencyFile('name', list(range(no)))
    o, pr = sel(np.array([2., 1., 1.9]), None, None)
    ctx.ensure('total', ctx.eq(pr, [0., tab[0, 1:].sum(), 0.]))
    ctx.ensure('order from the list', bool(np.all((o >= 0) & (o < no))))


class Conv(object):
    """Stands for the units module: only keV -> nm is known."""
    keV, nm, um, mm = 'keV', 'nm', 'um', 'mm'

    @staticmethod
    def spectral():
        return 'spectral'


class InKeV(str):
    def __new__(cls):
        return str.__new__(cls, 'keV')

    def __rmul__(self, o):
        return Q(o)
    __array_ufunc__ = None


class Q(object):
    def __init__(self, v):
        self.v = v

    def to(self, unit, equivalencies=None):
        assert unit == 'nm' and equivalencies == 'spectral'
        r = Q(self.v)
        r.value = 1.23984198433 / self.v
        return r

    def to_value(self, *a, **k):
        return self.to(*a, **k).value


Conv.keV = InKeV()


@contract('P10', 'interpolated_table')
def interptable(ctx):
    """InterpolateEfficiencyTable: for each photon the efficiencies at its own
    wavelength and blaze angle make up the slices."""
    N = ctx.dim('N')
    no = ctx.choose('orders', [1, 3])
    sel = cg.InterpolateEfficiencyTable.__new__(cg.InterpolateEfficiencyTable)
    orders = ctx.np.array([4, -3, 0][:no])
    sel.orders = orders
    f = [ctx.userfunc('eff%d' % i, 0., 0.3) for i in range(no)]

    class Interp(object):
        def __init__(self, g):
            self.g = g

        def ev(self, wave, blaze):
            return self.g(wave, blaze)
    sel.interpolators = [Interp(g) for g in f]
    if ctx.mode == 'sym':
        ctx.patch(cg, 'u', Conv)
    E, blaze = ctx.array('E', (N,), 0.1, 10.), ctx.array('blaze', (N,), 0., 1.5)
    wave = 1.23984198433 / E
    p = [g(wave, blaze) for g in f]
    tot = p[0]
    for x in p[1:]:
        tot = tot + x
    ctx.requires(tot > 1e-3)
    d = ctx.draws()
    o, pr = sel(E, None, blaze)
    d.need(u=1)
    ctx.shape_is('one order for each photon', o, (N,))
    ctx.ensure('total efficiency', ctx.eq(pr, tot, tol=1e-6))
    u = d.u[0] * tot
    lo = 0. * tot
    for k in range(no):
        hi = lo + p[k]
        inside = ctx.all(ctx.le(lo, u, tol=1e-6), ctx.lt(u, hi, tol=1e-6))
        ctx.ensure('order of the slice', ctx.implies(inside, ctx.eq(o, int([4, -3, 0][k]))))
        lo = hi
    ids, raw = sel.probabilities(E, None, blaze)
    for k in range(no):
        ctx.ensure('raw probabilities', ctx.eq(raw[k], p[k], tol=1e-6))


@contract('P10', 'selector_arguments')
def arguments(ctx):
    """A grating asks its order selector for the photons that hit, with their
    own energy, polarization and blaze angle; the angle of non-parallel bars is
    added for the place where the photon hits."""
    N = ctx.dim('N')
    P, pt = ctx.placement('P', zoom=np.array([1., 2., 3.]))
    # directions relative to the grating: angle from the normal in the plane
    # perpendicular to the grooves, then out of that plane
    be, ga = ctx.array('be', (N,), -1.5, 1.5), ctx.array('ga', (N,), -1.4, 1.4)
    cb, sb, cg_, sg = ctx.np.cos(be), ctx.np.sin(be), ctx.np.cos(ga), ctx.np.sin(ga)
    ctx.requires(cb > 1e-3)
    ctx.requires(cg_ > 1e-3)
    sgn = ctx.choose('side', [1., -1.])
    d = np.dot(ctx.np.array([sgn * cg_ * cb, cg_ * sb, sg]).T, pt['R'].T)
    ph, old = photons(ctx, N, pol=False)
    old['dir'] = ctx.hom(d, 0)
    old['polarization'] = ctx.hom(ctx.array('pol', (N, 3)), 0)
    ph['dir'], ph['polarization'] = old['dir'], old['polarization']
    c0, c1 = ctx.scalar('center', -0.1, 0.1), ctx.scalar('slope', -0.01, 0.01)
    given = {'d_blaze_mm': c1, 'blaze_center': c0}
    left = ctx.choose('left out', [(), ('d_blaze_mm',), ('blaze_center',), ('blaze_center', 'd_blaze_mm')])
    for k in left:
        del given[k]
    c0, c1 = given.get('blaze_center', 0.), given.get('d_blaze_mm', 0.)
    got = []

    def sel(energy, pol, blaze):
        got.append((energy, pol, blaze))
        return ctx.np.zeros(len(energy), dtype=int) if ctx.mode == 'conc' else 0. * energy, 0. * energy + 1.
    el = cg.NonParallelCATGrating(pos4d=P, d=2e-4, order_selector=sel, **given)
    hit, ip, il = any_intersection(ctx, el, N, old)
    transport_by_contract(ctx, grating, check=False)
    out = el(ph)
    if not got:
        ctx.ensure('asked whenever there is a hit', ~ctx.cond(hit))
        return
    e, p, b = got[0]
    ctx.ensure('energy', ctx.eq(e, old['energy'][hit]))
    ctx.ensure('polarization', ctx.alltrue(ctx.eq(p, old['polarization'][hit]), axis=1))
    want = ctx.np.arccos(abs(cb)) + c0 + c1 * il[:, 0]
    ctx.ensure('blaze angle', ctx.eq(b, want[hit], tol=1e-6))
    ctx.ensure('blaze angle recorded', ctx.implies(ctx.cond(hit), ctx.eq(ctx.column(out, 'blaze'), want, tol=1e-6)))


@contract('P10', 'L1_support')
def l1(ctx):
    """L1: photons whose random number exceeds the open fraction go straight
    through the support bars with its transmission; the others are diffracted."""
    N = ctx.dim('N')
    P, pt = ctx.placement('P', zoom=np.array([1., 2., 3.]))
    ph, old = photons(ctx, N)
    trans = ctx.userfunc('trans', 0., 1.)
    ctx.patch(cg, 'interp1d', lambda *a, **k: trans)
    el = cg.L1(pos4d=P, order_selector=None)
    frac = 1. - 0.0009 / 0.005
    ctx.ensure('open fraction', abs(float(el.openfraction) - frac) < 1e-12)
    el.openfraction = float(el.openfraction)
    hit, ip, il = any_intersection(ctx, el, N, old)
    g = {'dir': ctx.hom(ctx.array('g.dir', (N, 3)), 0), 'polarization': ctx.hom(ctx.array('g.pol', (N, 3)), 0),
         'probability': ctx.array('g.p', (N,), 0., 1.), 'order_L1': ctx.array('g.o', (N,), 1., 8.), 'blaze_L1': ctx.array('g.b', (N,), 0., 1.)}

    def diffracted(self, photons, intersect, interpos, intercoos):
        return {k: v[intersect] for k, v in g.items()}
    ctx.patch(CATGrating, 'specific_process_photons', diffracted)
    dr = ctx.draws()
    out = el(ph)
    h = ctx.cond(hit)
    unchanged(ctx, out, old, ['dir', 'pos', 'polarization', 'probability', 'energy'], ~h, tag='miss: ')
    if 'order_L1' not in out.colnames:
        ctx.ensure('columns are there whenever there is a hit', ~h)
        return
    dr.need(u=1)
    bar = ctx.cond(dr.u[0] > float(el.openfraction))
    col = lambda c: ctx.column(out, c)[hit]
    for c in ('dir', 'polarization'):
        ctx.ensure(c + ' of photons in the bars', ctx.implies(bar, ctx.alltrue(ctx.eq(col(c), old[c][hit]), axis=1)))
        ctx.ensure(c + ' of photons in the gaps', ctx.implies(~bar, ctx.alltrue(ctx.eq(col(c), g[c][hit]), axis=1)))
    ctx.ensure('order in the bars', ctx.implies(bar, ctx.eq(col('order_L1'), 0.)))
    ctx.ensure('order in the gaps', ctx.implies(~bar, ctx.eq(col('order_L1'), g['order_L1'][hit])))
    ctx.ensure('transmission of the bars at the energy of the photon',
               ctx.implies(bar, ctx.eq(col('probability'), (old['probability'] * trans(old['energy']))[hit])))
    ctx.ensure('efficiency of the gaps', ctx.implies(~bar, ctx.eq(col('probability'), (old['probability'] * g['probability'])[hit])))


@contract('P10', 'L2_support')
def l2(ctx):
    """L2Abs: open fraction of the hexagon minus the part shadowed at the
    photon's own angle of incidence; misfitting dimensions are refused."""
    N = ctx.dim('N')
    P, pt = ctx.placement('P', zoom=np.array([1., 2., 3.]))
    be, ph_ = ctx.array('be', (N,), 0., 0.5), ctx.array('az', (N,), -3.2, 3.2)
    cb, sb = ctx.np.cos(be), ctx.np.sin(be)
    ctx.requires(cb > 1e-3)
    ctx.requires(sb >= 0)
    sgn = ctx.choose('side', [1., -1.])
    d = np.dot(ctx.np.array([sgn * cb, sb * ctx.np.cos(ph_), sb * ctx.np.sin(ph_)]).T, pt['R'].T)
    ph, old = photons(ctx, N)
    old['dir'] = ctx.hom(d, 0)
    ph['dir'] = old['dir']
    period, bar, depth = 1., 0.1, 0.5
    el = cg.L2Abs(pos4d=P, l2_dims={'period': period, 'barwidth': bar, 'bardepth': depth})
    ctx.raises('bars wider than the period', ValueError, cg.L2Abs, pos4d=np.eye(4), l2_dims={'period': bar, 'barwidth': period, 'bardepth': depth})
    hit, ip, il = any_intersection(ctx, el, N, old)
    fac = (1 - bar / period) ** 2 - depth * (period - bar) * sb / (period ** 2 * ctx.np.sqrt(3) / 2)
    out = el(ph)
    ctx.ensure('fraction', ctx.implies(ctx.cond(hit), ctx.eq(ctx.column(out, 'probability'), old['probability'] * fac, tol=1e-6)))


@contract('P10', 'quality_factor', bounded='tables of up to 17 photons with orders -8..8')
def quality(ctx):
    """QualityFactor: the Debye-Waller factor of the photon's own order."""
    N = ctx.dim('N')
    ph, old = photons(ctx, N)
    m = ctx.array('order', (N,), -8, 8, kind='i')
    ph['order'] = m
    s, d = ctx.scalar('sigma', 0., 3.), 200.
    import astropy.units as u
    un = ctx.choose('units', [1., u.um])
    el = cg.QualityFactor(qualityfactor={'sigma': s * un, 'd': d * un})
    hit, ip, il = any_intersection(ctx, el, N, old)
    out = el(ph)
    h = ctx.cond(hit)
    ctx.ensure('factor', ctx.implies(h, ctx.eq(ctx.column(out, 'probability'), old['probability'] * np.exp(-(2 * np.pi * s / d * m) ** 2))))
    unchanged(ctx, out, old, ['probability'], ~h)
