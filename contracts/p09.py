"""P09: the grating equation."""
import numpy as np
from marxsvc.contract import contract
from marxsvc.photons import unchanged, transport_by_contract, transported
from marxs import energy2wave
from marxs.optics import grating
from marxs.optics.grating import FlatGrating, CATGrating


def setup(ctx, cls, trans, varying=False, blaze=False):
    """an arbitrary grating, placed anywhere, and arbitrary photons given in the
    frame of the element: e = (normal, y, z) components of the direction"""
    N = ctx.dim('N')
    P, pt = ctx.placement('P', zoom=np.array([1., 2., 3.]))
    R = pt['R']
    e = ctx.unit_vector('e', (N,))
    # every vector perpendicular to e is a cross product with e
    q = np.cross(ctx.array('w', (N, 3)), e)
    length = ctx.array('length', (N, 1), 0.1, 10.)
    old = {'dir': ctx.hom(np.dot(length * e, R.T), 0),
           'polarization': ctx.hom(np.dot(q, R.T), 0),
           'pos': ctx.hom(ctx.array('pos', (N, 3)), 1),
           'energy': ctx.array('energy', (N,), 0.1, 12., (True, True)),
           'probability': ctx.array('prob', (N,), 0., 1.)}
    hit = ctx.boolarray('hit', (N,))
    inter = ctx.hom(ctx.array('inter', (N, 3)), 1)
    loc = ctx.array('loc', (N, 2), -2., 2.)
    ph = ctx.table(N, dict(old))
    g = ctx.scalar('groove', -3.2, 3.2)
    if varying:
        d = ctx.userfunc('d', 1e-5, 1e-3)
        kd = lambda ic: d(ic[:, 0], ic[:, 1])
        period = d(loc[:, 0], loc[:, 1])
    else:
        kd = period = ctx.scalar('d', 1e-5, 1e-3)
    fm, fp = ctx.userfunc('m', -8., 8.), ctx.userfunc('p', 0., 1.)

    def select(energy, pol, blazeangle):
        ctx.ensure('the selector gets the polarization of the same photons',
                   ctx.alltrue(ctx.eq(pol, old['polarization'][hit]), axis=1))
        return fm(energy, blazeangle), fp(energy, blazeangle)
    calls = transport_by_contract(ctx, grating)
    el = cls(pos4d=P, d=kd, order_selector=select, groove_angle=g, transmission=trans)
    out = el.process_photons(ph, hit, inter, loc)
    c, s = ctx.np.cos(g), ctx.np.sin(g)
    spec = {}
    spec['l'] = -s * e[:, 1] + c * e[:, 2]      # along the grooves
    spec['t'] = c * e[:, 1] + s * e[:, 2]       # across the grooves
    spec['n'] = e[:, 0]
    new = np.dot(ctx.column(out, 'dir')[:, :3], R)
    new = {'l': -s * new[:, 1] + c * new[:, 2], 't': c * new[:, 1] + s * new[:, 2], 'n': new[:, 0]}
    m = ctx.column(out, 'order') if 'order' in out.colnames else None
    return N, el, out, old, hit, R, e, spec, new, m, period, fm, fp, inter, loc, calls


def sign_flat(ctx, spec):
    return 1.


def sign_cat(ctx, spec):
    # blazing (reflection off the grating bars) is towards negative orders
    return ctx.np.where(spec['t'] > 0, 1., -1.)


def check(ctx, cls, trans, signfn, varying=False):
    N, el, out, old, hit, R, e, spec, new, m, period, fm, fp, inter, loc, calls = setup(ctx, cls, trans, varying)
    if m is None:
        ctx.ensure('no columns only without hits', ~ctx.cond(hit))
        return
    hit = ctx.cond(hit)
    want_t = spec['t'] + signfn(ctx, spec) * m * (energy2wave / old['energy']) / period
    n2 = 1. - want_t ** 2 - spec['l'] ** 2
    exists = hit & ctx.le(0., n2) if ctx.mode == 'sym' else hit & ctx.cond(n2 > 1e-6)
    if signfn is sign_cat:      # no side is defined for t = 0
        exists = exists & ~ctx.eq(spec['t'], 0.)
    ctx.ensure('along the grooves nothing changes', ctx.implies(exists, ctx.eq(new['l'], spec['l'])))
    ctx.ensure('grating equation', ctx.implies(exists, ctx.eq(new['t'], want_t)))
    through = ~ctx.eq(spec['n'], 0.)
    ctx.ensure('unit length', ctx.implies(exists & through, ctx.eq(new['n'] ** 2, n2)))
    sgn = 1. if trans else -1.
    ctx.ensure('stays on its side' if trans else 'comes back to its side',
               ctx.implies(exists, ctx.le(0., sgn * new['n'] * spec['n'])))
    ctx.ensure('is a direction', ctx.implies(exists, ctx.eq(ctx.column(out, 'dir')[:, 3], 0.)))
    unchanged(ctx, out, old, ['dir', 'polarization', 'probability', 'pos'], ~hit)
    unchanged(ctx, out, old, ['energy'], hit | ~hit)


@contract('P09', 'transmission')
def transmission(ctx):
    """Constant period, transmission."""
    check(ctx, FlatGrating, True, sign_flat)


@contract('P09', 'reflection')
def reflection(ctx):
    """Constant period, reflection."""
    check(ctx, FlatGrating, False, sign_flat)


@contract('P09', 'varying_period')
def varying(ctx):
    """The period is the one at the very point the photon hits."""
    check(ctx, FlatGrating, True, sign_flat, varying=True)


@contract('P09', 'cat_grating')
def cat(ctx):
    """CAT gratings count orders from the side the photon comes from."""
    check(ctx, CATGrating, True, sign_cat)


@contract('P09', 'columns')
def columns(ctx):
    """Order, blaze angle, probability and polarization are those used."""
    N, el, out, old, hit, R, e, spec, new, m, period, fm, fp, inter, loc, calls = setup(ctx, FlatGrating, True)
    if m is None:
        ctx.ensure('no columns only without hits', ~ctx.cond(hit))
        return
    hit = ctx.cond(hit)
    b = ctx.column(out, 'blaze')
    ctx.ensure('order is the one selected for energy and blaze angle of this photon',
               ctx.implies(hit, ctx.eq(m, fm(old['energy'], b))))
    ctx.ensure('probability is multiplied with that of this photon',
               ctx.implies(hit, ctx.eq(ctx.column(out, 'probability'), old['probability'] * fp(old['energy'], b))))
    ctx.ensure('fill value of order', ctx.implies(~hit, ctx.isnan(m)))
    ctx.ensure('fill value of blaze', ctx.implies(~hit, ctx.isnan(b)))
    r = spec['n'] ** 2 + spec['t'] ** 2
    ok = hit & ~ctx.eq(r, 0.)
    ctx.general('a component is not longer than the vector',
                lambda a, b: ctx.implies(ctx.cond(a * a + b * b > 0), abs(a / ctx.np.sqrt(a * a + b * b)) <= 1.), (spec['n'], spec['t']))
    ctx.ensure('blaze angle is that between normal and ray across the grooves',
               ctx.implies(ok, ctx.eq(ctx.np.cos(b) ** 2 * r, spec['n'] ** 2)))
    ctx.ensure('blaze angle is in 0..pi/2', ctx.implies(ok, ctx.all(ctx.le(0., b), ctx.le(0., ctx.np.cos(b)))))
    want_t = spec['t'] + m * (energy2wave / old['energy']) / period
    n2 = 1. - want_t ** 2 - spec['l'] ** 2
    exists = hit & ctx.le(1e-6 if ctx.mode == 'conc' else 0., n2) & ~ctx.eq(spec['n'], 0.)
    transported(ctx, calls, out, old, hit, exists)
    ctx.ensure('position', ctx.implies(hit, ctx.alltrue(ctx.eq(ctx.column(out, 'pos'), inter), axis=1)))
    ctx.ensure('local y', ctx.implies(hit, ctx.eq(ctx.column(out, 'grat_y'), loc[:, 0])))
    ctx.ensure('local z', ctx.implies(hit, ctx.eq(ctx.column(out, 'grat_z'), loc[:, 1])))
