"""P07: probabilities are multiplied only, and stay in [0, 1]."""
import numpy as np
from marxsvc.contract import contract
from marxsvc.photons import photons, unchanged, any_intersection
from marxs.optics import base as ob
from marxs.optics.filter import EnergyFilter, GlobalEnergyFilter
from marxs.optics.baffles import Baffle


@contract('P07', 'energy_filter')
def energy_filter(ctx):
    """A filter multiplies the probability of each photon that hits with the
    user function at that photon's energy; the others keep theirs."""
    N = ctx.dim('N')
    P, pt = ctx.placement('P')
    f = ctx.userfunc('f', 0., 1.)
    ph, old = photons(ctx, N)
    hit = ctx.boolarray('hit', (N,))
    inter = ctx.hom(ctx.array('inter', (N, 3)), 1)
    loc = ctx.array('loc', (N, 2))
    el = EnergyFilter(pos4d=P, filterfunc=f)
    out = el.process_photons(ph, hit, inter, loc)
    p = ctx.column(out, 'probability')
    ctx.ensure('multiplied', ctx.implies(hit, ctx.eq(p, old['probability'] * f(old['energy']))))
    unchanged(ctx, out, old, ['probability'], ~ctx.cond(hit))
    ctx.ensure('at least 0', ctx.le(0., p))
    ctx.ensure('at most 1', ctx.le(p, 1.))


@contract('P07', 'energy_filter_with_geometry')
def energy_filter_call(ctx):
    """The same when the filter finds the intersections itself."""
    N = ctx.dim('N')
    P, pt = ctx.placement('P', zoom=np.array([1., 2., 3.]))
    f = ctx.userfunc('f', 0., 1.)
    ph, old = photons(ctx, N)
    el = EnergyFilter(pos4d=P, filterfunc=f)
    hit, a, b = any_intersection(ctx, el, N, old)
    out = el(ph)
    p = ctx.column(out, 'probability')
    ctx.ensure('multiplied', ctx.implies(hit, ctx.eq(p, old['probability'] * f(old['energy']))))
    unchanged(ctx, out, old, ['probability'], ~ctx.cond(hit))


@contract('P07', 'global_filter')
def global_filter(ctx):
    """A global filter multiplies every photon's probability with the user
    function at its energy and changes nothing else."""
    N = ctx.dim('N')
    f = ctx.userfunc('f', 0., 1.)
    ph, old = photons(ctx, N)
    out = GlobalEnergyFilter(filterfunc=f)(ph)
    p = ctx.column(out, 'probability')
    ctx.ensure('multiplied', ctx.eq(p, old['probability'] * f(old['energy'])))
    unchanged(ctx, out, old, ['pos', 'dir', 'energy', 'polarization'], ctx.cond(old['energy'] > -1.))
    ctx.ensure('range', ctx.all(ctx.le(0., p), ctx.le(p, 1.)))


@contract('P07', 'invalid_factor_refused')
def refused(ctx):
    """A factor outside [0, 1] for any photon that hits raises ValueError and no
    probability outside [0, 1] is ever stored."""
    N = ctx.dim('N')
    which = ctx.choose('element', ['global', 'filter', 'assign'])
    P, pt = ctx.placement('P')
    f = ctx.userfunc('f', -1., 2.)
    ph, old = photons(ctx, N)
    hit = ctx.boolarray('hit', (N,))
    fe = f(old['energy'])
    bad = (fe < 0) | (fe > 1)
    if which != 'global':
        bad = bad & hit
    try:
        if which == 'global':
            out = GlobalEnergyFilter(filterfunc=f)(ph)
        elif which == 'filter':
            out = EnergyFilter(pos4d=P, filterfunc=f).process_photons(ph, hit, old['pos'], old['pos'][:, :2])
        else:
            ob._assign_col_value(ph, 'probability', hit, fe[hit])
            out = ph
    except ValueError:
        ctx.ensure('error only for a bad factor', np.any(bad) if ctx.mode == 'conc' else ctx.np.any(bad))
        ctx.ensure('nothing stored', ctx.eq(ctx.column(ph, 'probability'), old['probability']))
        return
    ctx.ensure('no bad factor accepted', ~ctx.cond(bad))
    p = ctx.column(out, 'probability')
    ctx.ensure('range', ctx.all(ctx.le(0., p), ctx.le(p, 1.)))


@contract('P07', 'assign_other_columns')
def assign(ctx):
    """Every other column is replaced, not multiplied, and only for the photons
    selected."""
    N = ctx.dim('N')
    ph, old = photons(ctx, N, extra=['x'])
    hit = ctx.boolarray('hit', (N,))
    v = ctx.array('v', (N,))
    ob._assign_col_value(ph, 'x', hit, v[hit])
    ob._assign_col_value(ph, None, hit, v[hit])
    ctx.ensure('replaced', ctx.implies(hit, ctx.eq(ctx.column(ph, 'x'), v)))
    unchanged(ctx, ph, old, ['x'], ~ctx.cond(hit))
    unchanged(ctx, ph, old, ['pos', 'dir', 'energy', 'polarization', 'probability'], ctx.cond(old['energy'] > -1.))


@contract('P07', 'successive_factors')
def product(ctx):
    """Two filters in a row multiply both factors."""
    N = ctx.dim('N')
    P, pt = ctx.placement('P')
    f, g = ctx.userfunc('f', 0., 1.), ctx.userfunc('g', 0., 1.)
    ph, old = photons(ctx, N)
    hit = ctx.boolarray('hit', (N,))
    inter = ctx.hom(ctx.array('inter', (N, 3)), 1)
    loc = ctx.array('loc', (N, 2))
    st = ob.FlatStack(pos4d=P, elements=[EnergyFilter, EnergyFilter], keywords=[{'filterfunc': f}, {'filterfunc': g}])
    out = st.process_photons(ph, hit, inter, loc)
    p = ctx.column(out, 'probability')
    e = old['energy']
    ctx.ensure('product', ctx.implies(hit, ctx.eq(p, old['probability'] * f(e) * g(e))))
    unchanged(ctx, out, old, ['probability', 'pos', 'dir'], ~ctx.cond(hit))


@contract('P07', 'baffle')
def baffle(ctx):
    """A baffle leaves the probability of photons going through its hole alone
    and sets all others to zero."""
    N = ctx.dim('N')
    P, pt = ctx.placement('P', zoom=np.array([1., 2., 3.]))
    ph, old = photons(ctx, N)
    el = Baffle(pos4d=P)
    hit, ip, il = any_intersection(ctx, el, N, old)
    out = el(ph)
    p = ctx.column(out, 'probability')
    ctx.ensure('stopped', ctx.implies(~ctx.cond(hit), ctx.eq(p, 0.)))
    unchanged(ctx, out, old, ['probability'], ctx.cond(hit))
    unchanged(ctx, out, old, ['dir', 'energy', 'polarization'], ctx.cond(old['energy'] > -1.))
    ctx.ensure('position in the hole', ctx.implies(hit, ctx.alltrue(ctx.eq(ctx.column(out, 'pos'), ip), axis=1)))
    unchanged(ctx, out, old, ['pos'], ~ctx.cond(hit))
