"""P08: photons that miss are untouched, the table keeps its shape."""
import numpy as np
import astropy.units as u
from marxsvc.contract import contract
from marxsvc.photons import photons, unchanged, any_intersection, transport_by_contract
from marxs.base import SimulationSequenceElement
from marxs.optics import (FlatDetector, CircularDetector, FlatGrating, PerfectLens, RadialMirrorScatter,
                          RandomGaussianScatter, EnergyFilter, FlatStack)
from marxs.optics.grating import CATGrating
from marxs.optics.multiLayerMirror import FlatBrewsterMirror
from marxs.optics import base as ob, grating, scatter, mirror, detector


class Plain(ob.FlatOpticalElement):
    """does nothing but being hit"""
    loc_coos_name = ['a', 'b']
    output_columns = ['extra', {'name': 'label', 'dtype': int, 'value': -7}]

    def specific_process_photons(self, photons, intersect, interpos, intercoos):
        return {}


def frame(ctx, make, new, dircol=False, zoom=(1., 2., 3.), changes=(), pre=None, out_unit=True):
    """number and order of photons kept; photons that miss keep every column;
    photons that hit get the intersection point as position and keep the columns
    not named in ``changes``; new columns hold their fill value for misses."""
    N = ctx.dim('N')
    P, pt = ctx.placement('P', zoom=np.array(zoom))
    ph, old = photons(ctx, N, extra=['mine'])
    el = make(ctx, P)
    idcol = ctx.choose('id', [None, 'ident', 'mine'])     # no column, a new one, an existing one
    if idcol:
        el.id_col, el.id_num = idcol, 5
    hit, ip, il = any_intersection(ctx, el, N, old)
    if pre is not None:
        pre(ctx, hit, ip, il, old, pt)
    out = el(ph)
    hit = ctx.cond(hit)
    yes = hit | ~hit
    ctx.shape_is('number of photons', ctx.column(out, 'energy'), (N,))
    cols = ['pos', 'dir', 'polarization', 'energy', 'probability', 'mine']
    changes = list(changes) + (['mine'] if idcol == 'mine' else [])
    unchanged(ctx, out, old, [c for c in cols if c != 'pos' and c not in changes], yes)
    unchanged(ctx, out, old, ['pos'] + list(changes), ~hit, tag='miss: ')
    ctx.ensure('position of a hit', ctx.implies(hit, ctx.alltrue(ctx.eq(ctx.column(out, 'pos'), ip), axis=1)))
    have = list(out.colnames)
    extra = [c for c in have if c not in cols]
    want = list(new) + list(el.loc_coos_name or []) + ([idcol] if idcol == 'ident' else [])
    if idcol == 'mine':
        ctx.ensure('id of hits', ctx.implies(hit, ctx.eq(ctx.column(out, idcol), 5)))
    if not extra and want:
        ctx.ensure('columns are missing only without any hit', ~hit)
        return
    ctx.ensure('new columns', sorted(extra) == sorted(want))
    ctx.ensure('old columns first, in order', have[:len(cols)] == list(old))
    if idcol == 'ident':
        ctx.ensure('id of hits', ctx.implies(hit, ctx.eq(ctx.column(out, idcol), 5)))
        ctx.ensure('id of misses', ctx.implies(~hit, ctx.eq(ctx.column(out, idcol), -1)))
    for c in want:
        if c != idcol:
            v = ctx.column(out, c)
            fill = new[c] if isinstance(new, dict) and c in new else np.nan
            ctx.ensure('fill value of ' + c, ctx.implies(~hit, ctx.isnan(v) if fill != fill else ctx.eq(v, fill)))
    if el.loc_coos_name:
        for i, c in enumerate(el.loc_coos_name):
            ctx.ensure('local coordinate %d' % i, ctx.implies(hit, ctx.eq(ctx.column(out, c), il[:, i])))


@contract('P08', 'base_class')
def base(ctx):
    """The processing common to all elements."""
    frame(ctx, lambda c, P: Plain(pos4d=P), {'extra': np.nan, 'label': -7})


@contract('P08', 'flat_detector')
def flatdet(ctx):
    """FlatDetector."""
    frame(ctx, lambda c, P: FlatDetector(pos4d=P, pixsize=0.5), ['detpix_x', 'detpix_y'])


@contract('P08', 'circular_detector')
def circdet(ctx):
    """CircularDetector."""
    frame(ctx, lambda c, P: CircularDetector(pos4d=P, pixsize=0.5), ['detpix_x', 'detpix_y'], zoom=(2., 2., 3.))


@contract('P08', 'grating')
def grat(ctx):
    """FlatGrating and CATGrating."""
    fm, fp = ctx.userfunc('m', -8., 8.), ctx.userfunc('p', 0., 1.)
    transport_by_contract(ctx, grating, check=False)
    cls = ctx.choose('class', [FlatGrating, CATGrating])
    frame(ctx, lambda c, P: cls(pos4d=P, d=1e-4, order_selector=lambda e, p, b: (fm(e), fp(e))),
          ['order', 'blaze'], changes=['dir', 'polarization', 'probability'])


@contract('P08', 'perfect_lens')
def lens(ctx):
    """PerfectLens."""
    transport_by_contract(ctx, mirror, check=False)
    f = ctx.userfunc('refl', 0., 1.)

    def pre(c, hit, ip, il, old, pt):
        # the point where the ray meets the lens is not the focus point itself
        d2 = np.sum((pt['t'] + 100. * old['dir'][:, :3] - ip[:, :3]) ** 2, axis=1)
        c.requires(c.implies(hit, d2 > 1e-6))
    frame(ctx, lambda c, P: PerfectLens(pos4d=P, focallength=100., reflectivity_interpolator=lambda e, a, grid: f(e)),
          [], changes=['dir', 'polarization', 'probability'], pre=pre)


@contract('P08', 'radial_scatter')
def radial(ctx):
    """RadialMirrorScatter."""
    transport_by_contract(ctx, scatter, check=False)
    a, b = ctx.choose('sigma', [(0., 0.), (1., 0.), (0., 1.), (1., 1.)])
    frame(ctx, lambda c, P: RadialMirrorScatter(pos4d=P, inplanescatter=a * u.arcsec, perpplanescatter=b * u.arcsec),
          ['inplanescatter', 'perpplanescatter'], changes=['dir', 'polarization'])


@contract('P08', 'gaussian_scatter')
def gauss(ctx):
    """RandomGaussianScatter."""
    transport_by_contract(ctx, scatter, check=False)
    frame(ctx, lambda c, P: RandomGaussianScatter(pos4d=P, scatter=1. * u.arcsec), ['scatter'], changes=['dir', 'polarization'])


@contract('P08', 'gaussian_scatter_zero')
def gauss0(ctx):
    """RandomGaussianScatter of zero width changes no direction."""
    frame(ctx, lambda c, P: RandomGaussianScatter(pos4d=P, scatter=0. * u.arcsec), [])


@contract('P08', 'filter')
def filt(ctx):
    """EnergyFilter."""
    f = ctx.userfunc('f', 0., 1.)
    frame(ctx, lambda c, P: EnergyFilter(pos4d=P, filterfunc=f), [], changes=['probability'])


@contract('P08', 'stack')
def stack(ctx):
    """FlatStack of a filter and a detector."""
    f = ctx.userfunc('f', 0., 1.)
    frame(ctx, lambda c, P: FlatStack(pos4d=P, elements=[EnergyFilter, FlatDetector], keywords=[{'filterfunc': f}, {'pixsize': 0.5}]),
          ['detpix_x', 'detpix_y', 'det_x', 'det_y'], changes=['probability'])


@contract('P08', 'mirror')
def brewster(ctx):
    """FlatBrewsterMirror."""
    def pre(c, hit, ip, il, old, pt):
        # not at normal incidence, where the plane of incidence is not defined
        cr = np.cross(old['dir'][:, :3], pt['R'][:, 0])
        if c.mode == 'conc':
            c.requires(np.sum(cr ** 2, axis=1) > 1e-6)
        else:
            c.requires(~c.eq(np.sum(cr ** 2, axis=1), 0.))
    class Dark(FlatBrewsterMirror):     # reflects nothing; see P11 for what is reflected
        def fresnel(self, *args):
            return 0., 0.
    frame(ctx, lambda c, P: Dark(pos4d=P), [], changes=['dir', 'polarization', 'probability'], pre=pre)


@contract('P08', 'add_output_cols')
def addcols(ctx):
    """New columns have one entry per photon and the fill value asked for;
    existing columns and the specifications of the caller are not changed."""
    N = ctx.dim('N')
    ph, old = photons(ctx, N, extra=['mine'])
    el = SimulationSequenceElement(id_col='ident')
    spec = ['a', None, {'name': 'b', 'value': 2.5}, {'name': 'c', 'dtype': int, 'value': -7}, 'mine', {'name': 'energy', 'value': 1.}]
    keep = [dict(s) if isinstance(s, dict) else s for s in spec]
    el.output_columns = ['z']
    for i in range(2):
        el.add_output_cols(ph, spec)
        ctx.ensure('names', list(ph.colnames) == list(old) + ['z', 'a', 'b', 'c', 'ident'])
    ctx.ensure('specification untouched', spec == keep and el.output_columns == ['z'])
    for c, v in (('b', 2.5), ('c', -7), ('ident', -1)):
        ctx.shape_is('one entry per photon', ctx.column(ph, c), (N,))
        ctx.ensure('fill value ' + c, ctx.eq(ctx.column(ph, c), v))
    for c in ('a', 'z'):
        ctx.ensure('fill value ' + c, ctx.isnan(ctx.column(ph, c)))
    unchanged(ctx, ph, old, list(old), ctx.cond(old['energy'] > -1.))
