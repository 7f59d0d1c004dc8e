"""P24: Analysis results are the weighted statistics of the photons they claim
to be."""
import numpy as np
import astropy.units as u
from marxsvc.contract import contract
from marxs.analysis import gratings as ag, analysis as an, coords as co
from marxs.analysis.gratings import CaptureResAeff, CaptureResAeff_CCDgaps
from marxs.optics import FlatDetector
from marxs.math.utils import h2e

NAN = float('nan')


def orders(ctx, N, name='order'):
    return ctx.array(name, (N,), -3, 3, kind='i')


def intval(ctx, name, lo=-3, hi=3):
    return ctx.scalar(name, lo, hi, gen=lambda r, s: float(r.randint(lo, hi + 1)))


def total(ctx, x, sel):
    return ctx.np.sum(ctx.np.where(sel, x, 0.))


@contract('P24', 'effective_area', sizes='0 to 3 orders')
def effective_area(ctx):
    """For each order: the sum of the probabilities of exactly the photons with
    that order, divided by the number of photons simulated, times the area."""
    N = ctx.dim('N')
    m = ctx.choose('m', [1, 2, 3])
    o, p = orders(ctx, N, 'o'), ctx.array('p', (N,), 0., 1.)
    n = ctx.count('n', 1, 50)
    A = ctx.scalar('A', .1, 10.)
    col = ctx.choose('ordercol', ['order', 'a'])
    t = ctx.table(N, {col: o, 'probability': p})
    want = [intval(ctx, 'w%d' % i) for i in range(m)]
    unit = ctx.choose('area', ['number', 'mm2', 'default'])
    kw = {} if col == 'order' else {'ordercol': col}
    if unit != 'default':
        kw['A_geom'] = A if unit == 'number' else A * u.mm**2
    out = ag.effectivearea_from_photonlist(t, want, n, **kw)
    if unit != 'number':
        ctx.ensure('unit', str(out.unit) == {'mm2': 'mm2', 'default': 'cm2'}[unit])
        out = out.value
    if unit == 'default':
        A = 1.
    ctx.shape_is('one number for each order', out, (m,))
    for i in range(m):
        ctx.ensure('sum over the order', ctx.eq(out[i] * n, A * total(ctx, p, o == want[i])))
    ctx.ensure('photons not changed', ctx.all(ctx.eq(ctx.column(t, 'probability'), p)))


@contract('P24', 'detected_fraction', sizes='1 to 3 labels')
def detected_fraction(ctx):
    """The fraction for a label is the mean over all photons of the probability
    of those with this label."""
    N = ctx.dim('N', nonempty=True)
    m = ctx.choose('m', [1, 2, 3])
    o, p = orders(ctx, N, 'o'), ctx.array('p', (N,), 0., 1.)
    col = ctx.choose('col', ['order', 'CCD'])
    t = ctx.table(N, {col: o, 'probability': p})
    want = ctx.np.array([intval(ctx, 'w%d' % i) for i in range(m)])
    out = an.detected_fraction(t, want, **({} if col == 'order' else {'col': col}))
    ctx.shape_is('one number for each label', out, (m,))
    n = ctx.length(N)
    for i in range(m):
        ctx.ensure('mean', ctx.eq(out[i] * n, total(ctx, p, o == want[i])))


@contract('P24', 'average', sizes='1 to 4 orders, 1 or 2 channels')
def average(ctx):
    """Areas add up; resolving powers are averaged with the areas as weights over
    exactly those that are finite; nothing to average gives no number."""
    m, k = ctx.choose('m', [1, 2, 4]), ctx.choose('k', [0, 1, 2])
    shape = (m,) if k == 0 else (k, m)
    ok = ctx.boolarray('ok', shape)
    v = ctx.array('r', shape, 0., 1e4)
    a = ctx.array('a', shape, 0., 10., gen=lambda r, s: r.uniform(0, 10, size=s) * r.choice([0., 1., 1.], size=s))
    r = ctx.np.where(ok, v, NAN)
    axis = ctx.choose('axis', [None, -1]) if k == 0 else ctx.choose('axis', [0, 1, None])
    res, area = ag.average_R_Aeff(r, a, axis=axis)
    if ctx.mode == 'conc':
        res = np.ma.filled(np.ma.asarray(res, dtype=float), NAN)
    w = ctx.np.where(ok, a, 0.)
    S, V = ctx.np.sum(w, axis=axis), ctx.np.sum(w * v, axis=axis)
    ctx.ensure('areas add up', ctx.all(ctx.eq(area, ctx.np.sum(a, axis=axis))))
    ctx.ensure('nothing to average', ctx.all(ctx.iff(ctx.eq(S, 0.), ctx.isnan(res))))
    ctx.ensure('weighted mean', ctx.all(ctx.implies(ctx.lt(0., S), ctx.eq(res * S, V, tol=1e-6))))


def clipped(ctx, log):
    """sigma_clipped_stats is a statistic of the values it is given (assumed)"""
    def stats(data, *a, **k):
        i = len(log)
        v = tuple(ctx.scalar('%s%d' % (n, i), lo, hi) for n, lo, hi in (('mean', -5., 5.), ('median', -5., 5.), ('std', .1, 2.)))
        log.append((data, v[0], v[2]))
        return v
    return stats


def rows(ctx, name, got, want):
    got = getattr(got, 'value', got)
    if ctx.mode == 'conc':
        got = np.asarray(got)
    if ctx.same_shape(name, got, want):
        ctx.ensure(name, ctx.all(ctx.eq(got, want)))


@contract('P24', 'resolving_power', sizes='1 or 2 orders', assumes=['sigma_clipped_stats returns mean, median and standard deviation of the values given'])
def resolving_power(ctx):
    """Position and width of an order come from exactly the photons of this order,
    the zero point from the photons of order 0 unless given; fewer than 20 photons
    give no number; the resolving power is the distance over the FWHM."""
    N = ctx.dim('N', nonempty=True)
    m = ctx.choose('m', [1, 2])
    few = ctx.choose('photons', ['few', 'many'])
    o = orders(ctx, N, 'o')
    if ctx.mode == 'conc' and few == 'many':
        o = np.repeat([-1, 0, 1, 2], [int(ctx.choose('number', [19, 20, 21, 40])) for i in range(4)])
        N = len(o)
    x = ctx.array('x', (N,), -5., 5.)
    t = ctx.table(N, {'order': o, 'proj_x': x})
    want = [intval(ctx, 'w%d' % i, -1, 2) for i in range(m)]
    log = []
    ctx.patch(ag, 'sigma_clipped_stats', clipped(ctx, log))
    given = ctx.choose('zeropos', ['given', 'from order 0'])
    zp = ctx.scalar('zeropos', -1., 1.)
    n = [ctx.np.sum(ctx.np.where(o == w, 1, 0)) for w in want]
    n0 = ctx.np.sum(ctx.np.where(o == 0, 1, 0))
    call = lambda: ag.resolvingpower_from_photonlist(t, want, **({'zeropos': zp} if given == 'given' else {}))
    if given != 'given':
        if ctx.choose('order 0', ['enough', 'too few']) == 'too few':
            ctx.requires(ctx.lt(n0, 20))
            ctx.raises('too few photons in order 0', ag.AnalysisError, call)
            return
        ctx.requires(ctx.le(20, n0))
    en = [ctx.choose('enough %d' % i, [True, False]) for i in range(m)]
    for e, c in zip(en, n):
        ctx.requires(ctx.le(20, c) if e else ctx.lt(c, 20))
    res, pos, std = call()
    k = 0
    if given != 'given':
        rows(ctx, 'zero point from order 0', log[0][0], x[o == 0])
        zp, k = log[0][1], 1
    if len(log) != k + sum(en):
        ctx.ensure('statistics for each order with enough photons', False)
        return
    for r in (res, pos, std):
        ctx.shape_is('one number for each order', r, (m,))
    for i in range(m):
        if not en[i]:
            for r in (res, pos, std):
                ctx.ensure('no number', ctx.isnan(r[i]))
            continue
        rows(ctx, 'photons of this order', log[k][0], x[o == want[i]])
        M, S = log[k][1:]
        ctx.ensure('position', ctx.eq(pos[i], M))
        ctx.ensure('width', ctx.eq(std[i], S))
        ctx.ensure('resolving power', ctx.eq(res[i] * 2.3548 * S, ctx.np.abs(M - zp)))
        k += 1


@contract('P24', 'worst_column', sizes='1 to 3 columns, 1 to 3 orders')
def worst_column(ctx):
    """The worst resolving power of all columns, with position and width from the
    same column."""
    k, m = ctx.choose('k', [1, 2, 3]), ctx.choose('m', [1, 3])
    R, P, S = [[ctx.array('%s%d' % (n, i), (m,), 0., 10.) for i in range(k)] for n in 'RPS']
    calls = []

    def one(photons, orders, col='proj_x', zeropos=None, ordercol='order'):
        calls.append((photons, orders, col, zeropos, ordercol))
        i = len(calls) - 1
        return R[i], P[i], S[i]
    ctx.patch(ag, 'resolvingpower_from_photonlist', one)
    lists, cols, zero, o = ['t%d' % i for i in range(k)], ['c%d' % i for i in range(k)], [None, 3., 4.][:k], list(range(m))
    r, p, s = ag.resolvingpower_from_photonlist_robust(lists, o, cols, zero, ordercol='a')
    ctx.ensure('arguments', calls == [(lists[i], o, cols[i], zero[i], 'a') for i in range(k)])
    for j in range(m):
        any_ = None
        for i in range(k):
            ctx.ensure('not better than any', ctx.le(r[j], R[i][j]))
            c = ctx.eq(r[j], R[i][j]) & ctx.eq(p[j], P[i][j]) & ctx.eq(s[j], S[i][j])
            any_ = c if any_ is None else any_ | c
        ctx.ensure('all from one column', any_)
    ctx.raises('different lengths', ValueError, lambda: ag.resolvingpower_from_photonlist_robust(lists, o, cols + ['d'], zero))
    ctx.raises('different lengths', ValueError, lambda: ag.resolvingpower_from_photonlist_robust(lists + ['d'], o, cols, zero))


@contract('P24', 'subaperture')
def subaperture(ctx):
    """A photon is selected iff its angle, whatever the number of full turns, is
    within the maximal distance of the centre or of its mirror image."""
    N = ctx.dim('N')
    a = ctx.array('a', (N,), -3.1415, 3.1415)
    turns = ctx.choose('turns', [-2, 0, 1])
    mx = ctx.scalar('max', .01, 1.5)
    c = ctx.scalar('centre', 0.1, 3.1)
    default = ctx.choose('default', [True, False])
    if default:
        c = ctx.np.pi / 2
    ang = a + turns * 2 * ctx.np.pi
    out = ag.identify_photon_in_subaperture(ang, mx, **({} if default else {'ang_0': c}))
    d = ctx.np.abs(ctx.np.abs(a) - c)
    ctx.ensure('inside', ctx.all(ctx.implies(ctx.le(d, mx - 1e-9), out)))
    ctx.ensure('outside', ctx.all(ctx.implies(ctx.le(mx + 1e-9, d), ~out)))


class Rig(object):
    """a structure of gratings: photons get the order their selector says"""
    def __init__(self, n):
        self.elements = [type('E', (), {})() for i in range(n)]
        self.elem_args = {'d': 1., 'order_selector': None}
        self.log = []


@contract('P24', 'capture', sizes='3 or 4 orders, with and without order 0')
def capture(ctx):
    """Areas use the photons of the filter and the number of photons simulated;
    resolving powers use the photons with finite coordinate and non-zero
    probability; order 0 is kept apart from the sums over grating orders."""
    N = ctx.dim('N')
    o, p = orders(ctx, N, 'o'), ctx.array('p', (N,), 0., 1., gen=lambda r, s: r.choice([0., .5, 1.], size=s))
    ok = ctx.boolarray('ok', (N,))
    x = ctx.np.where(ok, ctx.array('x', (N,), -5., 5.), NAN)
    ccd = ctx.array('ccd', (N,), -1, 3, kind='i')
    t = ctx.table(N, {'order': o, 'probability': p, 'det_x': x, 'CCD_ID': ccd})
    lst = ctx.choose('orders', [[-1, 0, 1], [2, 1, 0, -1], [1, 2, 3]])
    kind = ctx.choose('class', ['plain', 'gaps'])
    A = ctx.scalar('A', .1, 10.)
    zp = ctx.choose('zeropos', [None, 2.])
    obj = (CaptureResAeff if kind == 'plain' else CaptureResAeff_CCDgaps)(A_geom=A, orders=lst, zeropos=zp)
    R = ctx.array('R', (len(lst),), 1., 10.)
    fail = ctx.choose('enough photons', [True, False])
    got = []

    def power(photons, orders, col='proj_x', zeropos=None, ordercol='order'):
        got.append((photons, orders, col, zeropos, ordercol))
        if not fail:
            raise ag.AnalysisError('too few')
        return R, None, None
    ctx.patch(ag, 'resolvingpower_from_photonlist', power)
    if ctx.choose('number', ['given', 'from list']) == 'given':
        n = ctx.count('n', 1, 50)
        out = obj(t, n)
    else:
        n = ctx.length(N)
        ctx.requires(ctx.lt(0, n))
        out = obj(t)
    ctx.ensure('entries', set(out) == {'Aeff0', 'Aeffgrat', 'Aeff', 'Rgrat', 'R'})
    used = ctx.np.ones_like(p) > 0 if kind == 'plain' else ccd >= 0
    area = [A * total(ctx, p, ctx.np.logical_and(used, o == k)) for k in lst]
    ctx.shape_is('areas', out['Aeff'], (len(lst),))
    for i, k in enumerate(lst):
        ctx.ensure('area of an order', ctx.eq(out['Aeff'][i] * n, area[i]))
    ctx.ensure('area in order 0', ctx.eq(out['Aeff0'] * n, area[lst.index(0)] if 0 in lst else 0.))
    gr = [i for i, k in enumerate(lst) if k != 0]
    S = sum(area[i] for i in gr)
    ctx.ensure('area in grating orders', ctx.eq(out['Aeffgrat'] * n, S))
    ph, oo, col, z, oc = got[0]
    ctx.ensure('arguments', list(oo) == lst and col == 'det_x' and oc == 'order' and z == zp)
    sel = ctx.np.logical_and(ok, p > 0)
    rows(ctx, 'photons for the resolving power', ctx.column(ph, 'det_x'), x[sel])
    rows(ctx, 'orders for the resolving power', ctx.column(ph, 'order'), o[sel])
    ravg = out['Rgrat']
    if ctx.mode == 'conc':
        ravg = np.ma.filled(np.ma.asarray(ravg, dtype=float), NAN)
    if fail:
        ctx.ensure('resolving power', ctx.all(ctx.eq(out['R'], R)))
        ctx.ensure('average', ctx.implies(ctx.lt(0., S), ctx.eq(ravg * S, sum(R[i] * area[i] for i in gr), tol=1e-6)))
        ctx.ensure('no area, no average', ctx.implies(ctx.eq(S, 0.), ctx.isnan(ravg)))
    else:
        ctx.ensure('no resolving power', ctx.all(ctx.isnan(out['R'])))
        ctx.ensure('no average', ctx.isnan(ravg))


@contract('P24', 'projection')
def projection(ctx):
    """Projected coordinates are the components of the vector from the centre of
    the plane along its two axes; nothing else changes."""
    N = ctx.dim('N')
    P, p = ctx.placement('P')
    pos = ctx.hom(ctx.array('pos', (N, 3), -10., 10.), 1)
    pr = ctx.array('pr', (N,), 0., 1.)
    t = ctx.table(N, {'pos': pos, 'probability': pr})
    out = co.ProjectOntoPlane(pos4d=P)(t)
    d = pos[:, :3] - p['t']
    for name, k in (('proj_x', 1), ('proj_y', 2)):
        e = p['R'][:, k]
        ctx.ensure(name, ctx.all(ctx.eq(ctx.column(out, name), d[:, 0] * e[0] + d[:, 1] * e[1] + d[:, 2] * e[2])))
    ctx.ensure('positions not changed', ctx.alltrue(ctx.alltrue(ctx.eq(ctx.column(out, 'pos'), pos), axis=1), axis=0))
    ctx.ensure('columns', set(out.colnames) == {'pos', 'probability', 'proj_x', 'proj_y'})


class Facet(object):
    def __init__(self, i):
        self.id_num = i


class Facets(object):
    pass


@contract('P24', 'facets', sizes='1 to 3 facets')
def facets(ctx):
    """One row for each facet, with its centre, its identifier and its polar
    coordinates as seen in the plane of projection; the plane does not change."""
    n = ctx.choose('n', [1, 2, 3])
    c = Facets()
    e = [ctx.placement('e%d' % i) for i in range(n)]
    c.elem_pos = [x for x, _ in e]
    c.elements = [Facet(7 - i) for i in range(n)]
    P, p = ctx.placement('P')
    default = ctx.choose('plane', ['default', 'given'])
    plane = co.ProjectOntoPlane(pos4d=P)
    names = list(plane.loc_coos_name)
    if default == 'default':
        t, R = ctx.np.zeros(3), ctx.np.eye(3)
        out = co.facet_table(c)
    else:
        t, R = p['t'], p['R']
        out = co.facet_table(c, plane)
        ctx.ensure('plane not changed', list(plane.loc_coos_name) == names)
    ctx.ensure('columns', set(out.colnames) == {'facet_projx', 'facet_projy', 'facet_ang', 'facet_rad', 'facet', 'facet_x', 'facet_y', 'facet_z'})
    ctx.ensure('class not changed', co.ProjectOntoPlane.loc_coos_name == ['proj_x', 'proj_y'])
    q = {k: ctx.column(out, k) for k in out.colnames}
    for i in range(n):
        d = e[i][1]['t'] - t
        y, z = [d[0] * R[0, k] + d[1] * R[1, k] + d[2] * R[2, k] for k in (1, 2)]
        for k, s in enumerate('xyz'):
            ctx.ensure('centre', ctx.eq(q['facet_' + s][i], e[i][1]['t'][k]))
        ctx.ensure('projected', ctx.eq(q['facet_projx'][i], y) & ctx.eq(q['facet_projy'][i], z))
        ctx.ensure('radius', ctx.eq(q['facet_rad'][i] ** 2, y**2 + z**2, tol=1e-6))
        ctx.ensure('radius not negative', ctx.le(0., q['facet_rad'][i]))
        ctx.ensure('angle', ctx.eq(q['facet_ang'][i], ctx.np.arctan2(z, y)))
        ctx.ensure('identifier', ctx.eq(q['facet'][i], 7 - i))


@contract('P24', 'best_position')
def best_position(ctx):
    """The function that is minimised moves a detector of the orientation given by
    the trial value along its normal and evaluates the photons there."""
    N = ctx.dim('N', nonempty=True)
    P, p = ctx.placement('P')
    R = p['R']
    turn = lambda v: ctx.np.stack([v[:, 0] * R[k, 0] + v[:, 1] * R[k, 1] + v[:, 2] * R[k, 2] for k in range(3)], axis=1)
    l, ld = ctx.array('l', (N, 3), -10., 10.), ctx.unit_vector('d', (N,))
    x = ctx.scalar('x', -10., 10.)
    ctx.requires(ctx.all(ctx.lt(1e-3, ld[:, 0])))
    ctx.requires(ctx.all(ctx.lt(l[:, 0] + 1e-3, x)))
    pos, d = ctx.hom(turn(l), 1), turn(ld)
    E = ctx.array('E', (N,), .1, 3.)
    pol = ctx.hom(ctx.unit_vector('pol', (N,)), 0)
    t = ctx.table(N, {'pos': pos, 'dir': ctx.hom(d, 0), 'energy': E, 'probability': E * 0. + 1., 'polarization': pol})
    seen, mins = [], []

    def objective(ph, **kw):
        seen.append((ph, kw))
        return 4.25

    class Opt(object):
        @staticmethod
        def minimize_scalar(f, args=(), **kw):
            mins.append((f, args, kw))
            return 'found'

    class Sci(object):
        optimize = Opt
    ctx.patch(an, 'scipy', Sci)
    out = an.find_best_detector_position(t, objective, {'k': 1}, R, tol=3)
    ctx.ensure('result and options', out == 'found' and len(mins) == 1 and mins[0][2] == {'tol': 3})
    f, args, kw = mins[0]
    ctx.ensure('value of the objective', f(x, *args) == 4.25)
    ph, kw = seen[0]
    ctx.ensure('options of the objective', kw == {'k': 1})
    ctx.ensure('photons given do not change', ctx.alltrue(ctx.alltrue(ctx.eq(ctx.column(t, 'pos'), pos), axis=1), axis=0))
    q = ctx.column(ph, 'pos')
    s = (x - l[:, 0]) / ld[:, 0]
    hit = ctx.np.stack([l[:, k] + s * ld[:, k] for k in range(3)], axis=1)
    want = turn(hit)
    for k in range(3):
        ctx.ensure('photons in the plane', ctx.all(ctx.eq(q[:, k], want[:, k], tol=1e-5)))
    for name, k in (('det_x', 1), ('det_y', 2)):
        ctx.ensure('coordinates', ctx.all(ctx.eq(ctx.column(ph, name), hit[:, k], tol=1e-5)))


@contract('P24', 'mean_width')
def mean_width(ctx):
    """The mean distance of the photons from their mean position."""
    N = ctx.dim('N', nonempty=True)
    x, y = ctx.array('x', (N,), -5., 5.), ctx.array('y', (N,), -5., 5.)
    out = an.mean_width_2d(ctx.table(N, {'det_x': x, 'det_y': y}))
    n = ctx.length(N)
    mx, my = ctx.np.sum(x) / n, ctx.np.sum(y) / n
    ctx.ensure('mean distance', ctx.eq(out * n, ctx.np.sum(ctx.np.sqrt((x - mx) ** 2 + (y - my) ** 2))))


@contract('P24', 'clipped_width', assumes=['sigma_clipped_stats returns mean, median and standard deviation of the values given'])
def clipped_width(ctx):
    """The width is the standard deviation of the column asked for."""
    N = ctx.dim('N')
    x, y = ctx.array('x', (N,), -5., 5.), ctx.array('y', (N,), -5., 5.)
    log, kws = [], []
    st = clipped(ctx, log)
    ctx.patch(an, 'sigma_clipped_stats', lambda d, **k: kws.append(k) or st(d))
    col = ctx.choose('col', [None, 'det_x', 'y'])
    out = an.sigma_clipped_std(ctx.table(N, {'det_x': x, 'y': y}), **({'sigma': 2.} if col is None else {'colname': col}))
    rows(ctx, 'column', log[0][0], y if col == 'y' else x)
    ctx.ensure('width', ctx.eq(out, log[0][2]))
    ctx.ensure('options', kws == [{'sigma': 2.} if col is None else {}])


@contract('P24', 'orders_in_turn', sizes='1 or 2 orders, 2 gratings', assumes=['sigma_clipped_stats returns mean, median and standard deviation of the values given'])
def orders_in_turn(ctx):
    """Each order is run with all gratings sending all photons to this order,
    starting from the photons given; photons that miss the gratings or have no
    probability left are not used."""
    N = ctx.dim('N', nonempty=True)
    m = ctx.choose('m', [1, 2])
    x, p = ctx.array('x', (N,), -5., 5.), ctx.array('p', (N,), 0., 1., gen=lambda r, s: r.choice([0., .5], size=s))
    hit = ctx.boolarray('hit', (N,))
    t = ctx.table(N, {'x': x, 'probability': p})
    want = ctx.np.array([2., -1.][:m])
    log, runs = [], []
    ctx.patch(ag, 'sigma_clipped_stats', clipped(ctx, log))

    class Gratings(Rig):
        def __call__(self, ph):
            sel = self.elements[0].order_selector
            runs.append((all(e.order_selector is sel for e in self.elements) and self.elem_args['order_selector'] is sel, list(sel.orderlist)))
            o = float(sel.orderlist[0])
            ph['order'] = ctx.np.where(hit, o, NAN)
            ph['x'] = ctx.column(ph, 'x') + o
            return ph
    g = Gratings(2)

    def det(ph):
        ph['pix'] = ctx.column(ph, 'x') * 2.
        return ph
    res, fwhm, info = ag.resolvingpower_per_order(g, t, want, det, colname='pix')
    ctx.ensure('all gratings in one order', [bool(a) for a, _ in runs] == [True] * m and [b for _, b in runs] == [[2.], [-1.]][:m])
    rows(ctx, 'zero point', log[0][0], x * 2.)
    zp = log[0][1]
    sel = ctx.np.logical_and(hit, p > 0)
    for i, o in enumerate([2., -1.][:m]):
        rows(ctx, 'photons of the order', log[i + 1][0], ((x + o) * 2.)[sel])
        M, S = log[i + 1][1:]
        ctx.ensure('width', ctx.eq(fwhm[i], 2.3548 * S))
        ctx.ensure('resolving power', ctx.eq(res[i] * 2.3548 * S, ctx.np.abs(M - zp)))
    ctx.ensure('photons given do not change', ctx.all(ctx.eq(ctx.column(t, 'x'), x)))


class Eff(object):
    pass


@contract('P24', 'weighted', sizes='1 or 2 orders, 2 energies, tables with 2 energies in either order')
def weighted(ctx):
    """The mean over orders for an energy weighted with the efficiency
    interpolated for this order and energy."""
    m = ctx.choose('m', [1, 2])
    e = Eff()
    e0, de = ctx.scalar('e0', .1, 1.), ctx.scalar('de', .1, 1.)
    up = ctx.choose('table', ['ascending', 'descending'])
    e.energy = ctx.np.array([e0, e0 + de] if up == 'ascending' else [e0 + de, e0])
    e.orders = np.array([1, 0]) if ctx.choose('orders', [0, 1]) else np.array([0, 1])
    e.prob = ctx.array('prob', (2, 2), 0.01, .5)
    f = [ctx.scalar('f%d' % i, 0., 1.) for i in range(2)]
    data = ctx.array('data', (m, 2), 1., 10.)
    lst = np.array([[1], [0, 1]][m - 1])
    energy = ctx.np.array([e0 + de * f[0], e0 + de * f[1]])
    out = ag.weighted_per_order(data, lst, energy, e)
    lo, hi = (0, 1) if up == 'ascending' else (1, 0)
    for j in range(2):
        num = den = 0.
        for i, o in enumerate(lst):
            k = int(np.nonzero(e.orders == o)[0][0])
            w = e.prob[lo, k] + f[j] * (e.prob[hi, k] - e.prob[lo, k])
            num, den = num + w * data[i, j], den + w
        ctx.ensure('weighted mean', ctx.eq(out[j] * den, num, tol=1e-6))
    ctx.raises('unknown order', KeyError, lambda: ag.weighted_per_order(data, lst + 5, energy, e))
    ctx.raises('wrong number of orders', ValueError, lambda: ag.weighted_per_order(data, np.arange(m + 1), energy, e))
    ctx.raises('wrong number of energies', ValueError, lambda: ag.weighted_per_order(data, lst, energy[:1], e))
