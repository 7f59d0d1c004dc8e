"""P23: Tolerancing moves change exactly what they say and can be undone."""
import contextlib
import io
import numpy as np
import astropy.units as u
from marxsvc.contract import contract
from marxsvc.draws import Draws
from marxs.design import tolerancing as tol
from marxs.design import uncertainties as unc
from marxs.simulator import Parallel, Sequence
from marxs.math.geometry import FinitePlane
from contracts.p19 import Part, same_matrix

DOF = ['dx', 'dy', 'dz', 'rx', 'ry', 'rz']
ZERO = {k: 0. for k in DOF}


def rigid(ctx, d):
    """first turned about the fixed x axis, then y, then z, then shifted"""
    c, s = ctx.np.cos, ctx.np.sin

    def rot(a, i, j):
        rows = [[1. if m == n else 0. for n in range(3)] for m in range(3)]
        rows[i][i], rows[j][j], rows[i][j], rows[j][i] = c(a), c(a), -s(a), s(a)
        return ctx.np.array(rows)
    R = np.dot(rot(d['rz'], 0, 1), np.dot(rot(d['ry'], 2, 0), rot(d['rx'], 1, 2)))
    rows = [[R[i, j] for j in range(3)] + [d[k]] for i, k in enumerate(DOF[:3])]
    return ctx.np.array(rows + [[0., 0., 0., 1.]])


def move(ctx, name='', only=None):
    """values for all degrees of freedom, or some of them"""
    d = {k: ctx.scalar(name + k, *((-10., 10.) if k[0] == 'd' else (-4., 4.))) for k in DOF}
    if only is not None:
        d = {k: v for k, v in d.items() if k in only}
    return d


def some(ctx):
    return ctx.choose('keywords', [DOF, ['dx'], ['dy'], ['dz'], ['rx'], ['ry'], ['rz'], ['dz', 'ry'], []])


def full(d):
    return dict(ZERO, **d)


class Elem(object):
    pass


@contract('P23', 'element_step')
def element_step(ctx):
    """From any state that earlier moves can leave, a move puts the element to the
    shift after the rotations about x, y and z of its first place, and keeps that
    place (so that by induction no history of moves matters)."""
    P, p = ctx.placement('P')
    e = Elem()
    e.geometry = FinitePlane({'pos4d': P})
    e.other = 5
    first = ctx.choose('history', ['never moved', 'moved'])
    if first == 'moved':
        Q, q = ctx.placement('Q')
        e.geometry.pos4d_orig = P
        e.geometry.pos4d = Q
    d = move(ctx, only=some(ctx))
    tol.moveelem(e, **d)
    same_matrix(ctx, 'place', e.geometry.pos4d, np.dot(rigid(ctx, full(d)), P))
    same_matrix(ctx, 'first place kept', e.geometry.pos4d_orig, P)
    ctx.ensure('nothing else', set(e.__dict__) == {'geometry', 'other'} and e.other == 5)


@contract('P23', 'element_reset')
def element_reset(ctx):
    """Zero after any two moves restores the place; several elements are moved
    each about itself by the same amount."""
    P, p = ctx.placement('P')
    Q, q = ctx.placement('Q')
    es = [Elem(), Elem()]
    es[0].geometry, es[1].geometry = FinitePlane({'pos4d': P}), FinitePlane({'pos4d': Q})
    es = ctx.choose('container', [list, tuple])(es)
    a, b = move(ctx, 'a'), move(ctx, 'b')
    tol.moveelem(es, **a)
    tol.moveelem(es, **b)
    for e, M in zip(es, [P, Q]):
        same_matrix(ctx, 'second move', e.geometry.pos4d, np.dot(rigid(ctx, b), M))
    tol.moveelem(es[1], **a)
    same_matrix(ctx, 'other element not moved', es[0].geometry.pos4d, np.dot(rigid(ctx, b), P))
    same_matrix(ctx, 'third move', es[1].geometry.pos4d, np.dot(rigid(ctx, a), Q))
    how = ctx.choose('reset', ['reset_6d', 'defaults'])
    tol.moveelem(es, **(tol.reset_6d if how == 'reset_6d' else {}))
    for e, M in zip(es, [P, Q]):
        same_matrix(ctx, 'restored', e.geometry.pos4d, M)
    ctx.ensure('zeros', set(tol.reset_6d) == set(DOF) and all(v == 0 for v in tol.reset_6d.values()))


class Assembly(object):
    """records the state at the time elements are generated"""
    def __init__(self, n, U=None, S=None):
        self.elements = [object() for i in range(n)]
        self.uncertainty = U
        self.elem_uncertainty = S
        self.log = []

    def generate_elements(self):
        self.log.append((self.uncertainty, self.elem_uncertainty))


@contract('P23', 'global_step')
def global_step(ctx):
    """moveglobal replaces the uncertainty of the assembly by exactly this move
    and generates the elements; the uncertainties of the parts stay."""
    U, _ = ctx.placement('U')
    S, _ = ctx.placement('S')
    a, keep = Assembly(3, U, [S]), [S]
    d = move(ctx, only=some(ctx))
    tol.moveglobal(a, **d)
    same_matrix(ctx, 'uncertainty', a.uncertainty, rigid(ctx, full(d)))
    ctx.ensure('parts keep theirs', len(a.elem_uncertainty) == 1 and a.elem_uncertainty[0] is S)
    ctx.ensure('elements generated with it', len(a.log) >= 1 and a.log[-1][0] is a.uncertainty)
    ctx.ensure('elements are not touched', len(a.elements) == 3)


@contract('P23', 'individual_step', sizes='0 to 4 parts')
def individual_step(ctx):
    """moveindividual gives every part exactly this move and leaves the
    uncertainty of the assembly alone."""
    n = ctx.choose('n', [0, 1, 2, 4])
    U, _ = ctx.placement('U')
    a = Assembly(n, U, [U] * n)
    d = move(ctx, only=some(ctx))
    tol.moveindividual(a, **d)
    ctx.ensure('one for each part', len(a.elem_uncertainty) == n)
    for M in a.elem_uncertainty:
        same_matrix(ctx, 'move', M, rigid(ctx, full(d)))
    ctx.ensure('uncertainty of the whole kept', a.uncertainty is U)
    ctx.ensure('elements generated with it', len(a.log) >= 1 and a.log[-1][1] is a.elem_uncertainty)


def row(z, i, k):
    return z[i, k]


@contract('P23', 'wiggle_step', sizes='0 to 3 parts')
def wiggle_step(ctx):
    """wiggle gives every part its own move, drawn with exactly the widths given
    for each degree of freedom around zero."""
    n = ctx.choose('n', [0, 1, 2, 3])
    U, _ = ctx.placement('U')
    a = Assembly(n, U, [U] * n)
    sig = {k: ctx.scalar('s' + k, 0., 2.) for k in some(ctx)}
    dr = ctx.draws()
    if True:
        tol.wiggle(a, **sig)
    sig = full(sig)
    ctx.ensure('one for each part', len(a.elem_uncertainty) == n)
    ctx.ensure('uncertainty of the whole kept', a.uncertainty is U)
    ctx.ensure('elements generated with it', len(a.log) >= 1 and a.log[-1][1] is a.elem_uncertainty)
    if n == 0:
        return
    ctx.ensure('two draws', len(dr.z) == 2)
    ctx.shape_is('shifts', dr.z[0], (n, 3))
    ctx.shape_is('turns', dr.z[1], (n, 3))
    for i, M in enumerate(a.elem_uncertainty):
        d = {k: sig[k] * dr.z[0][i, j] for j, k in enumerate(DOF[:3])}
        d.update({k: sig[k] * dr.z[1][i, j] for j, k in enumerate(DOF[3:])})
        same_matrix(ctx, 'move of a part', M, rigid(ctx, d))


@contract('P23', 'facet_uncertainty', sizes='0 to 3 facets')
def facet_uncertainty(ctx):
    """The drawn misalignments have the widths and the offsets asked for."""
    n = ctx.choose('n', [1, 2, 3])
    s = [ctx.scalar('s' + k, 0., 2.) for k in DOF]
    o = [ctx.scalar('o' + k, -2., 2.) for k in DOF]
    how = ctx.choose('offset', ['none', 'one', 'three'])
    kw = {} if how == 'none' else {'trans_offset': o[0], 'rot_offset': o[3]} if how == 'one' else {'trans_offset': o[:3], 'rot_offset': o[3:]}
    dr = ctx.draws()
    if True:
        out = unc.generate_facet_uncertainty(n, s[:3], s[3:], **kw)
    ctx.ensure('as many as asked for', len(out) == n)
    off = [0.] * 6 if how == 'none' else [o[0]] * 3 + [o[3]] * 3 if how == 'one' else o
    for i, M in enumerate(out):
        d = {k: off[j] + s[j] * dr.z[j // 3][i, j % 3] for j, k in enumerate(DOF)}
        same_matrix(ctx, 'misalignment', M, rigid(ctx, d))


@contract('P23', 'history', sizes='assemblies of 2 parts, histories of 3 moves')
def history(ctx):
    """Whatever was applied before, the parts of a real assembly are at their
    nominal place after zero, and the last global and individual moves are the
    only ones with an effect."""
    P, p = ctx.placement('P', zoom=(1., 1., 1.))
    E = [ctx.placement('e%d' % i, zoom=(1., 1., 1.)) for i in range(2)]
    A = [Parallel(elem_class=Part, elem_pos=[x for x, _ in E], pos4d=P) for i in range(2)]
    a, b = move(ctx, 'a'), move(ctx, 'b')
    h = ctx.choose('history', ['gig', 'iig', 'ggi', 'ig', 'gi', 'g', 'i'])
    last = {}
    for c, d in zip(h, [a, b, a]):
        (tol.moveglobal if c == 'g' else tol.moveindividual)(A, **d)
        last[c] = d
    for x in A:
        for i, el in enumerate(x.elements):
            # an individual move shifts in the system of the assembly and turns the part about its own centre
            M = rigid(ctx, last.get('i', ZERO))
            e = E[i][1]
            R = np.dot(M[:3, :3], e['R'])
            t = e['t'] + M[:3, 3]
            loc = ctx.np.array([[R[m, n] for n in range(3)] + [t[m]] for m in range(3)] + [[0., 0., 0., 1.]])
            same_matrix(ctx, 'place after the moves', el.pos4d, np.dot(P, np.dot(rigid(ctx, last.get('g', ZERO)), loc)))
    tol.moveindividual(A, **tol.reset_6d)
    tol.moveglobal(A, **tol.reset_6d)
    for x in A:
        for i, el in enumerate(x.elements):
            same_matrix(ctx, 'nominal again', el.pos4d, np.dot(P, E[i][0]))


@contract('P23', 'attributes')
def attributes(ctx):
    """varyattribute sets exactly the attributes named, to the values given, and
    refuses names the object does not have."""
    v, w, x = ctx.scalar('v', -1., 1.), ctx.scalar('w', -1., 1.), ctx.scalar('x', -1., 1.)
    es = []
    for i in range(2):
        e = Elem()
        e.width, e.length, e.keep = w, w, w
        es.append(e)
    how = ctx.choose('elements', ['list', 'single'])
    tol.varyattribute(es if how == 'list' else es[0], width=v, length=x)
    for e in es[:2 if how == 'list' else 1]:
        ctx.ensure('set', e.width is v and e.length is x and e.keep is w and len(e.__dict__) == 3)
    if how == 'single':
        ctx.ensure('only this one', es[1].width is w and es[1].length is w)
    ctx.raises('unknown name', ValueError, lambda: tol.varyattribute(es, widht=v))
    ctx.ensure('nothing added', len(es[0].__dict__) == 3 and len(es[1].__dict__) == 3)


@contract('P23', 'gratings', sizes='1 to 3 gratings')
def gratings(ctx):
    """Each grating gets its own period from the normal distribution given;
    order selectors are made anew for each with the arguments given; elements
    that are no gratings are refused."""
    n = ctx.choose('n', [1, 2, 3])
    m, s = ctx.scalar('m', 1., 2.), ctx.scalar('s', 0., .1)
    es = []
    for i in range(n):
        e = Elem()
        e._d, e.order_selector, e.keep = 1., None, 7
        es.append(e)
    dr = ctx.draws()
    if True:
        tol.varyperiod(es, m, s)
    ctx.ensure('a draw for each', len(dr.z) == n)
    for i, e in enumerate(es):
        ctx.ensure('period', ctx.eq(e._d, m + s * dr.z[i]))
    made = []

    class Selector(object):
        def __init__(self, *args, **kw):
            made.append(self)
            self.args, self.kw = args, kw
    tol.varyorderselector(es, Selector, m, blaze=s)
    ctx.ensure('own selector', len(made) == n and all(e.order_selector is k for e, k in zip(es, made)))
    ctx.ensure('arguments', all(k.args == (m,) and list(k.kw) == ['blaze'] and k.kw['blaze'] is s for k in made))
    ctx.ensure('nothing else', all(set(e.__dict__) == {'_d', 'order_selector', 'keep'} and e.keep == 7 for e in es))
    ctx.raises('no period', ValueError, lambda: tol.varyperiod(Elem(), m, s))
    ctx.raises('no selector', ValueError, lambda: tol.varyorderselector([Elem()], Selector))


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


class Rig(object):
    """an instrument that spoils the photons it is given, depending on its state"""
    def __init__(self, ctx):
        self.ctx, self.state, self.log = ctx, None, []

    def __call__(self, photons):
        self.log.append(('run', self.state))
        photons['probability'] *= self.state['dx']
        photons['new'] = photons['probability'] + 1.
        return photons

    def wiggle(self, parts, **pars):
        self.log.append(('wiggle', dict(pars)))
        parts.state = dict(pars)


@contract('P23', 'scan', sizes='0 to 3 parameter sets')
def scan(ctx):
    """Each set of parameters is applied once, in order, before the run it
    belongs to; every run starts with the photons given, which do not change; each
    result holds its own parameters and what was measured on its own photons."""
    N = ctx.dim('N')
    n = ctx.choose('n', [0, 1, 2, 3])
    q = ctx.array('q', (N,), 0., 1.)
    ph = ctx.table(N, {'probability': q})
    rig = Rig(ctx)
    pars = [{'dx': ctx.scalar('x%d' % i, .1, 1.), 'rz': ctx.scalar('r%d' % i, .1, 1.)} for i in range(n)]
    given = [dict(p) for p in pars]
    seen = []

    def analyze(photons):
        seen.append(photons)
        return {'res': 2 * rig.state['dx'], 'number': len(seen)}
    out = quiet(tol.run_tolerances, ph, rig, rig.wiggle, rig, pars, analyze)
    ctx.ensure('one result each', len(out) == n and len(seen) == n)
    ctx.ensure('wiggle and run in turn', [k for k, _ in rig.log] == ['wiggle', 'run'] * n)
    for i in range(n):
        ctx.ensure('parameters applied', rig.log[2 * i][1] == given[i] and rig.log[2 * i + 1][1] == given[i])
        ctx.ensure('own photons', ctx.all(ctx.eq(ctx.column(seen[i], 'probability'), q * given[i]['dx'])))
        ctx.ensure('result', set(out[i]) == {'dx', 'rz', 'res', 'number'} and out[i]['dx'] is given[i]['dx'] and out[i]['rz'] is given[i]['rz'] and out[i]['number'] == i + 1)
        ctx.ensure('measured', ctx.eq(out[i]['res'], 2 * given[i]['dx']))
    ctx.ensure('photons given do not change', ctx.all(ctx.eq(ctx.column(ph, 'probability'), q)))
    ctx.ensure('no column added', list(ph.colnames) == ['probability'])
    ctx.ensure('parameters do not change', all(set(a) == set(b) and all(a[k] is b[k] for k in a) for a, b in zip(pars, given)))


class Source(object):
    def __init__(self, ctx, N, q):
        self.ctx, self.N, self.q, self.energy, self.log = ctx, N, q, None, []

    def generate_photons(self, t):
        self.log.append((self.energy, t))
        return self.ctx.table(self.N, {'probability': self.q * self.energy.value})


@contract('P23', 'energy_scan', sizes='1 or 2 energies, 1 or 2 parameter sets')
def energy_scan(ctx):
    """One row for each energy and each set of parameters, with that energy, its
    wavelength, the parameters and what was measured with them; the instrument in
    front is run once for each energy; reset is applied at the end only."""
    N = ctx.dim('N')
    m, n = ctx.choose('m', [1, 2]), ctx.choose('n', [1, 2])
    q = ctx.array('q', (N,), .1, 1.)
    E = ctx.array('E', (m,), .1, 3.)
    unit = ctx.choose('unit', ['keV', 'eV'])
    src, rig, ran = Source(ctx, N, q), Rig(ctx), []
    pars = [{'dx': ctx.scalar('x%d' % i, .1, 1.)} for i in range(n)]
    t = 5. * u.s

    def before(photons):
        ran.append(len(src.log))
        photons['probability'] *= 3.
        return photons
    seen = []

    def analyze(photons):
        seen.append(ctx.column(photons, 'probability'))
        return {'res': 2 * rig.state['dx'] * src.energy.value}
    reset = ctx.choose('reset', [None, {'dx': 0.}, {'dx': 0., 'rz': 0., 'other': 1.}, {}])
    energies = E * getattr(u, unit)
    out = quiet(tol.run_tolerances_for_energies, src, energies, before, rig, rig.wiggle, rig, pars, analyze, reset, t)
    ctx.ensure('one row each', len(out) == m * n)
    ctx.ensure('source once for each energy', len(src.log) == m and all(x[1] is t for x in src.log))
    ctx.ensure('front part once for each energy', ran == list(range(1, m + 1)))
    ctx.ensure('wiggle and run in turn', [k for k, _ in rig.log] == ['wiggle', 'run'] * (m * n) + ([] if reset is None else ['wiggle']))
    if reset is not None:
        ctx.ensure('reset at the end', rig.log[-1] == ('wiggle', reset))
    kev = 1. if unit == 'keV' else 1e-3
    hc = 12.398419843320026
    en, wa, dx, res = [ctx.column(out, k) for k in ('energy', 'wave', 'dx', 'res')]
    ctx.ensure('unit of energy', str(out['energy'].unit) == unit)
    for i in range(m):
        for j in range(n):
            k = i * n + j
            ctx.ensure('energy', ctx.eq(en[k], E[i]))
            ctx.ensure('wavelength', ctx.le(abs(wa[k] * E[i] * kev - hc), 1e-6))
            ctx.ensure('parameter', ctx.eq(dx[k], pars[j]['dx']))
            ctx.ensure('measured', ctx.eq(res[k], 2 * pars[j]['dx'] * E[i]))
            ctx.ensure('photons', ctx.all(ctx.eq(seen[k], q * E[i] * 3. * pars[j]['dx'])))


class A(Part):
    def __init__(self, kind):
        self.kind = kind


class Derived(A):
    pass


@contract('P23', 'split', sizes='5 instruments')
def split(ctx):
    """The instrument is split in front of the first element that contains the
    class asked for; exactly the elements of this class are wiggled (with
    subclasses if asked for), wherever they are nested."""
    a = [A(i) for i in range(4)]
    d = [Derived(i) for i in range(2)]
    f = [Front() for i in range(3)]
    which, sub = ctx.choose('instrument', [0, 1, 2, 3, 4]), ctx.choose('subclass_ok', [True, False])
    els = [[f[0], a[0], f[1], a[1]],
           [a[0], f[0]],
           [f[0], f[1], a[0], d[0]],
           [f[0], d[0], a[0], f[1], d[1]],
           [f[0], f[1]]][which]
    got = {}

    def stand_in(source, energies, before, remaining, wigglefunc, parts, parameters, analyzefunc, reset=None, t_source=None):
        got.update(locals())
        return 'table'
    ctx.patch(tol, 'run_tolerances_for_energies', stand_in)
    want = [e for e in els if type(e) is A or (sub and isinstance(e, A))]
    ins = Sequence(elements=els)
    args = dict(source='s', energies='e', instrum=ins, cls=A, wigglefunc='w', parameters='p', analyzefunc='an', reset='r', subclass_ok=sub, t_source='t')
    if not want:
        ctx.raises('nothing to wiggle', Exception, lambda: tol.run_tolerances_for_energies2(**args))
        return
    out = tol.run_tolerances_for_energies2(**args)
    k = els.index(want[0])
    ctx.ensure('front', list(got['before'].elements) == els[:k])
    ctx.ensure('rest', list(got['remaining'].elements) == els[k:])
    ctx.ensure('wiggled', [id(x) for x in got['parts']] == [id(x) for x in want])
    ctx.ensure('passed on', out == 'table' and [got[x] for x in ('source', 'energies', 'wigglefunc', 'parameters', 'analyzefunc', 'reset', 't_source')] == ['s', 'e', 'w', 'p', 'an', 'r', 't'])
    ctx.ensure('instrument not changed', list(ins.elements) == els)


class Front(object):
    def __call__(self, photons):
        return photons


for c in (A, Front):
    c.__call__ = lambda self, photons: photons


@contract('P23', 'wigglelist', sizes='1 to 3 steps of shift and of rotation', max_paths=60)
def wigglelist(ctx):
    """The list has one entry for each degree of freedom and step in either
    direction (one direction for the second list), all others zero, and the
    unmoved state exactly once; values in mm and rad."""
    nt, nr = ctx.choose('nt', [1, 2, 3]), ctx.choose('nr', [1, 2])
    up = lambda name, n: ctx.np.array([0.] + [i + ctx.scalar('%s%d' % (name, i), .1, .9) for i in range(n - 1)])
    t, r = up('t', nt), up('r', nr)
    ut, ur = ctx.choose('units', [('mm', 'rad'), ('cm', 'arcmin')])
    ft, fr = {'mm': 1., 'cm': 10.}[ut], {'rad': 1., 'arcmin': np.pi / 180. / 60.}[ur]
    both, one = tol.generate_6d_wigglelist(t * getattr(u, ut), r * getattr(u, ur))
    moved = 3 * (nt - 1) + 3 * (nr - 1)
    ctx.ensure('length', len(both) == 2 * moved + 1 and len(one) == moved + 1)
    ctx.ensure('names', all(list(x) == DOF for x in both + one))
    for lst, signs in ((both, (1., -1.)), (one, (1.,))):
        want = [(k, s * v[i] * f) for k in DOF for v, f, n in [((t, ft, nt) if k[0] == 'd' else (r, fr, nr))] for i in range(1, n) for s in signs]
        want = [dict(ZERO, **{k: v}) for k, v in want] + [ZERO]
        for w in want:
            hit = None
            for x in lst:
                c = None
                for k in DOF:
                    e = ctx.eq(x[k], w[k], tol=1e-9)
                    c = e if c is None else c & e
                hit = c if hit is None else hit | c
            ctx.ensure('entry in the list', hit)


@contract('P23', 'select_dof')
def select_dof(ctx):
    """Exactly the rows in which all other parameters are zero are selected, in
    order, whatever the value of the one asked for."""
    N = ctx.dim('N')
    names = ctx.choose('parameters', [DOF, ['dx', 'ry'], ['dx']])
    cols = {k: ctx.array(k, (N,), -1., 1., gen=lambda r, s: r.choice([0., 0., 0., .5, -1.], size=s) if s and s[0] > 3 else r.choice([0., .5], size=s)) for k in DOF + ['res']}
    t = ctx.table(N, cols)
    par = ctx.choose('par', ['dx', 'ry'])
    out = tol.select_1dof_changed(t, par, names)
    keep = None
    for k in names:
        if k != par:
            c = cols[k] == 0.
            keep = c if keep is None else ctx.np.logical_and(keep, c)
    if keep is None:
        keep = ctx.np.ones_like(cols['dx']) > 0
    for k in cols:
        want = cols[k][keep]
        if ctx.same_shape('rows', ctx.column(out, k), want):
            ctx.ensure('values', ctx.all(ctx.eq(ctx.column(out, k), want)))
    for k in cols:
        ctx.ensure('table not changed', ctx.all(ctx.eq(ctx.column(t, k), cols[k])))
