"""Arbitrary photon tables, in both modes."""
import numpy as np
from .terms import Unsupported


def photons(ctx, N, name='ph', pol=True, extra=(), length=None):
    """A photon table with N rows and arbitrary valid content.  Returns the
    table and a dict with its columns as they are now.  With length=True the
    direction vectors have arbitrary lengths."""
    d = {}
    F = ctx.frame(name + '.F', (N,))
    d['dir'] = ctx.hom(F[..., 1], 0)
    al = ctx.array(name + '.al', (N, 1), 0., 6.28)
    if pol:
        d['polarization'] = ctx.hom(ctx.np.cos(al) * F[..., 0] + ctx.np.sin(al) * F[..., 2], 0)
    d['pos'] = ctx.hom(ctx.array(name + '.pos', (N, 3)), 1)
    d['energy'] = ctx.array(name + '.energy', (N,), 0.1, 12., (True, True))
    d['probability'] = ctx.array(name + '.prob', (N,), 0., 1.)
    for e in extra:
        d[e] = ctx.array(name + '.' + e, (N,))
    keep = dict(d)
    if length is not None:
        keep['unit_dir'] = F[..., 1]
    if length:
        keep['dir'] = d['dir'] = ctx.hom(ctx.array(name + '.len', (N, 1), 0.1, 10.) * F[..., 1], 0)
    return ctx.table(N, d), keep


def unchanged(ctx, tab, before, cols, where, tag=''):
    """columns have their old values for the rows selected"""
    for c in cols:
        new, old = ctx.column(tab, c), before[c]
        if new.ndim == 1:
            ctx.ensure('%s%s unchanged' % (tag, c), ctx.implies(where, ctx.same(new, old)))
        else:
            ctx.ensure('%s%s unchanged' % (tag, c), ctx.implies(where, ctx.alltrue(ctx.same(new, old), axis=1)))


def row_eq(ctx, a, b, tol=None):
    return ctx.alltrue(ctx.eq(a, b, tol=tol), axis=1)


def any_intersection(ctx, el, N, old, name='ix', pt=None):
    """Replace the element's intersection routine by its contract: any set of
    photons may hit, at any points; photons that miss get NaN.  (What it really
    returns is the subject of P03/P04.)  Returns (hit, points, local)."""
    hit = ctx.boolarray(name + '.hit', (N,))
    pt = ctx.array(name + '.pt', (N, 3)) if pt is None else pt
    loc = ctx.array(name + '.loc', (N, 2))
    h = ctx.np.asarray(hit)[:, None] if ctx.mode == 'conc' else hit[:, None]
    ip = ctx.hom(ctx.np.where(h, pt, np.nan), 1)
    il = ctx.np.where(h, loc, np.nan)
    calls = []

    def intersect(dir, pos, *a, **k):
        calls.append(1)
        ctx.ensure('the intersection is computed for the photon directions', ctx.alltrue(ctx.eq(dir, old['dir']), axis=1))
        ctx.ensure('the intersection is computed for the photon positions', ctx.alltrue(ctx.eq(pos, old['pos']), axis=1))
        return ctx.np.array(hit), ctx.np.array(ip), ctx.np.array(il)
    el.geometry.intersect = intersect
    return hit, ip, il


def transport_by_contract(ctx, module, check=True):
    """Callers of parallel_transport are checked against its contract (proved in
    P06): given a polarization perpendicular to the old direction it returns a
    vector of the same length, perpendicular to the new one."""
    n = []
    if ctx.mode == 'conc':
        return n

    def parallel_transport(dir_old, dir_new, pol, *a, **k):
        from marxsvc.symarr import asym
        if a or k:
            raise Unsupported('parallel_transport with a Jones matrix')
        dir_old, dir_new, pol = asym(dir_old), asym(dir_new), asym(pol)
        n.append(None)
        if check:
            ctx.ensure('transport starts from the polarization perpendicular to the old direction',
                       ctx.eq(np.sum(dir_old[:, :3] * pol[:, :3], axis=1), 0.))
        out = ctx.array('pol.out%d' % len(n), (pol.axes[0], 3))
        fin = ctx.alltrue(ctx.finite(dir_new), axis=1)
        ctx.requires(ctx.implies(fin, ctx.eq(np.sum(out * dir_new[:, :3], axis=1), 0.)))
        ctx.requires(ctx.eq(np.sum(out * out, axis=1), np.sum(pol * pol, axis=1)))
        out = ctx.hom(out, 0)
        n[-1] = (dir_new, out)
        return out
    ctx.stub(module, 'parallel_transport', parallel_transport)
    return n


def transported(ctx, calls, tab, old, hit, where, newdir='dir', tol=None):
    """The polarization is the old one transported to the new direction."""
    pol, d = ctx.column(tab, 'polarization'), ctx.column(tab, newdir)
    if ctx.mode == 'conc':
        ctx.ensure('polarization perpendicular to the new direction', ctx.implies(where, ctx.eq(np.sum(pol * d, axis=1), 0.)))
        ctx.ensure('polarization keeps its length', ctx.implies(where, ctx.eq(np.sum(pol ** 2, axis=1), np.sum(old['polarization'] ** 2, axis=1))))
        return
    if not calls:
        ctx.ensure('polarization is transported whenever there is a hit', ~ctx.cond(where))
        return
    ctx.ensure('polarization is transported once', len(calls) == 1)
    dn, out = calls[0]
    ctx.ensure('polarization is transported to the new direction', ctx.alltrue(ctx.eq(d[hit], dn), axis=1) | ~ctx.cond(where[hit]))
    ctx.ensure('polarization is the transported one', ctx.alltrue(ctx.eq(pol[hit], out), axis=1) | ~ctx.cond(where[hit]))


def polarization_by_contract(ctx, module):
    """Callers of polarization_vectors are checked against its contract (proved
    in P06): unit vectors perpendicular to the directions.  The arguments of
    every call are recorded as (directions, angles, result)."""
    calls = []
    if ctx.mode == 'conc':
        real = module.polarization_vectors

        def f(dir_array, angles):
            out = real(dir_array, angles)
            calls.append((np.array(dir_array), np.array(getattr(angles, 'value', angles)), out))
            return out
        ctx.patch(module, 'polarization_vectors', f)
        return calls

    def polarization_vectors(dir_array, angles):
        from marxsvc.symarr import asym
        d = asym(dir_array)
        a = asym(getattr(angles, 'value', angles))
        out = ctx.array('polvec.out%d' % len(calls), (d.axes[0], 3))
        ctx.requires(ctx.eq(np.sum(out * out, axis=1), 1.))
        ctx.requires(ctx.eq(np.sum(out * d[:, :3], axis=1), 0.))
        out = ctx.hom(out, 0)
        calls.append((d.copy(), a, out))
        return out
    ctx.stub(module, 'polarization_vectors', polarization_vectors)
    return calls
