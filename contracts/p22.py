"""P22: gratings placed on a Rowland torus lie on it and face the right way."""
import numpy as np
from marxsvc.contract import contract
from marxs.design import rowland as mod
from marxs.design.rowland import RowlandTorus, GratingArrayStructure, RectangularGrid, CircularMeshGrid, ElementsOnTorus


def bare(cls, **kw):
    """an object with these attributes, without placing anything"""
    g = cls.__new__(cls)
    for k in kw:
        setattr(g, k, kw[k])
    return g


@contract('P22', 'rectangle', sizes='1 to 3 elements in each direction')
def rectangle(ctx):
    """A rectangle is filled with the least number of elements that covers it,
    edge to edge, centred on the middle; equal limits give one element there."""
    ctx.builtin_int(mod, upto=4)
    n = [ctx.choose('ny', [1, 2, 3]), ctx.choose('nz', [1, 2, 3])]
    lo = [ctx.scalar(k, -100., 100.) for k in ('y0', 'z0')]
    d = [ctx.scalar(k, 1., 50.) for k in ('dy', 'dz')]
    f = [ctx.scalar(k, 0., 1., (False, True)) for k in ('fy', 'fz')]
    one = ctx.choose('equal limits', [False, True])
    hi = [lo[i] if one and n[i] == 1 else lo[i] + (n[i] - f[i]) * d[i] for i in range(2)]
    if ctx.mode == 'conc':
        for x in f:
            ctx.requires(1e-6 < x < 1 - 1e-6)
    g = bare(RectangularGrid, y_range=[lo[0], hi[0]], z_range=[lo[1], hi[1]], d_element=d)
    y, z = g.elemposyz()
    ctx.ensure('least number of elements', y.shape == (n[0] * n[1],) and z.shape == (n[0] * n[1],))
    if not (y.shape == z.shape == (n[0] * n[1],)):
        return
    k = 0
    for j in range(n[1]):
        for i in range(n[0]):
            ctx.ensure('y', ctx.eq(y[k], (lo[0] + hi[0]) / 2 + (i - (n[0] - 1) / 2) * d[0]))
            ctx.ensure('z', ctx.eq(z[k], (lo[1] + hi[1]) / 2 + (j - (n[1] - 1) / 2) * d[1]))
            ctx.ensure('centre inside the limits', ctx.all(ctx.le(lo[0], y[k]), ctx.le(y[k], hi[0]), ctx.le(lo[1], z[k]), ctx.le(z[k], hi[1])))
            k += 1


@contract('P22', 'radii', sizes='1 or 2 radius intervals with 1 to 3 elements each')
def radii(ctx):
    """Radii are covered by the least number of rings, edge to edge, centred on
    the middle of each interval."""
    ctx.builtin_int(mod, upto=4)
    n = [ctx.choose('n1', [1, 2, 3])]
    if ctx.choose('intervals', [1, 2]) == 2:
        n.append(ctx.choose('n2', [1, 2, 3]))
    d = ctx.scalar('d', 1., 50.)
    rad, mid = [], []
    for i in range(len(n)):
        lo = ctx.scalar('lo%d' % i, 0., 500.)
        f = ctx.scalar('f%d' % i, 0., 1., (False, True))
        if ctx.mode == 'conc':
            ctx.requires(1e-6 < f < 1 - 1e-6)
        rad += [lo, lo + (n[i] - f) * d]
        mid.append((rad[-1] + rad[-2]) / 2)
    g = bare(GratingArrayStructure, radius=rad, d_element=[d, 3.])
    r = g.distribute_elements_on_radius()
    ctx.ensure('least number of rings', r.shape == (sum(n),))
    if r.shape != (sum(n),):
        return
    k = 0
    for m, c in zip(n, mid):
        for i in range(m):
            ctx.ensure('radius', ctx.eq(r[k], c + (i - (m - 1) / 2) * d))
            k += 1


@contract('P22', 'arc')
def arc(ctx):
    """An arc takes as many elements as fit into it at their inner edge, with
    equal gaps on all sides: they neither overlap nor reach beyond the limits."""
    d0, d1 = ctx.scalar('d0', 1., 20.), ctx.scalar('d1', 1., 20.)
    x = ctx.scalar('x', 1., 500.)
    r = x + d0 / 2
    p0 = ctx.scalar('phi0', 0., 6.)
    D = ctx.scalar('range', .01, 6.28)
    phi = {'up': [p0, p0 + D], 'wrapped': [p0, p0 + D - 2 * np.pi], 'turn': [p0 + 2 * np.pi, p0 + D], 'full': [p0, p0 + 2 * np.pi]}
    which = ctx.choose('limits', ['up', 'wrapped', 'turn', 'full'])
    if which == 'turn':
        ctx.requires(ctx.lt(D, 6.2))
    if which == 'full':
        D = 2 * np.pi
        phi = phi['full']
        if ctx.mode == 'conc':
            phi = [0., 2 * np.pi]
            p0 = 0.
    else:
        phi = phi[which]
    g = bare(GratingArrayStructure, phi=phi, d_element=[d0, d1])
    # contract of anglediff: P01
    ctx.stub(mod, 'anglediff', lambda x: D + 0 * x[0] if x is phi else ctx.scalar('other angles', 0., 6.28))
    if ctx.mode == 'conc':
        ctx.requires(abs((x * D / d1) % 1 - .5) < .499)
    a = g.distribute_elements_on_arc(r)
    n = len(a) if ctx.mode == 'conc' else ctx.length(a.axes[0]) if hasattr(a.axes[0], 'card') else a.axes[0]
    ctx.ensure('as many as fit', ctx.all(ctx.le(n * d1, x * D), ctx.lt(x * D, (n + 1) * d1)))
    k = ctx.np.arange(n)
    n = ctx.np.floor(x * D / d1)
    e = d1 / r
    gap = (D - n * e) / (n + 1)
    ctx.lemma('gap is not negative', ctx.le(0., gap))
    want = p0 + gap + e / 2 + k * (gap + e)
    if ctx.mode == 'sym':
        ctx.ensure('equal gaps', ctx.eq(a, want % (2 * np.pi)))
    else:
        ctx.ensure('equal gaps', ctx.all(ctx.eq(ctx.np.cos(a), ctx.np.cos(want), tol=1e-6), ctx.eq(ctx.np.sin(a), ctx.np.sin(want), tol=1e-6)))
    ctx.ensure('one turn', ctx.all(ctx.le(0., a), ctx.lt(a, 2 * np.pi)))


@contract('P22', 'arc_single')
def arc_single(ctx):
    """A single angle gives exactly one element."""
    p = ctx.scalar('phi', 0., 6.)
    form = ctx.choose('form', ['list', 'number', 'array'])
    g = bare(GratingArrayStructure, phi=[p] if form == 'list' else p if form == 'number' else ctx.np.array([p]), d_element=[1., 1.])
    a = ctx.np.asarray(g.distribute_elements_on_arc(ctx.scalar('r', 1., 100.)))
    ctx.ensure('one element', a.shape == (1,))
    ctx.ensure('at that angle', ctx.eq(a[0], p))


@contract('P22', 'rings', sizes='1 to 3 rings with 0 to 2 elements')
def rings(ctx):
    """Positions in the plane are the polar positions of all elements of all rings."""
    n = ctx.choose('rings', [1, 2, 3])
    m = ctx.choose('elements', [(1, 2, 0), (2, 0, 1), (2, 1, 2), (1, 1, 1)])[:n]
    r = ctx.array('r', (n,), 1., 100.)
    arcs = [ctx.array('a%d' % i, (m[i],), 0., 6.28) for i in range(n)]
    g = bare(GratingArrayStructure)
    asked = []

    def on_arc(rad):
        asked.append(rad)
        return arcs[len(asked) - 1]
    g.distribute_elements_on_radius = lambda: r
    g.distribute_elements_on_arc = on_arc
    y, z = g.elemposyz()
    ctx.ensure('every ring once', len(asked) == n)
    for i in range(min(n, len(asked))):
        ctx.ensure('radius of the ring', ctx.eq(asked[i], r[i]))
    ctx.ensure('every element once', y.shape == (sum(m),) and z.shape == (sum(m),))
    if y.shape != (sum(m),):
        return
    k = 0
    for i in range(n):
        for j in range(m[i]):
            ctx.ensure('y', ctx.eq(y[k], r[i] * ctx.np.sin(arcs[i][j])))
            ctx.ensure('z', ctx.eq(z[k], r[i] * ctx.np.cos(arcs[i][j])))
            k += 1


class Made(object):
    """an element that records its placement"""
    def __init__(self, **kwargs):
        self.kw = kwargs
        self.pos4d = kwargs['pos4d']

    def __call__(self, t):
        return t


class Some(ElementsOnTorus):
    """elements at given places in the plane"""
    def elemposyz(self):
        return self.__class__.y, self.__class__.z


class FoundTorus(RowlandTorus):
    """torus of which only the contract of its solver (P21) is used"""
    def solve_quartic(self, origin, v, transform=True):
        self.asked.append((origin, v, transform))
        k = self.k[len(self.asked) - 1]
        o = origin[:3] + k * v[:3]
        return self.ctx.np.array([[o[0], o[1], o[2], 1.]])

    def normal(self, xyzw):
        self.points = xyzw
        return self.ctx.hom(self.nn, 0)


@contract('P22', 'places', sizes='1 or 2 elements', timeout=30)
def places(ctx):
    """Each element is where the line through its place in the plane of the
    torus along the given axis meets the torus, looks inwards along the normal there
    (or as asked for), with its y axis in the plane with the axis of the torus."""
    n = ctx.choose('n', [1, 2])
    P, p = ctx.placement('P', zoom=(1., 1., 1.))
    R, r = ctx.scalar('Rt', 1., 100.), ctx.scalar('rt', 1., 100.)
    t = FoundTorus(R=R, r=r, pos4d=P)
    t.ctx, t.asked = ctx, []
    t.k = ctx.array('k', (n,))
    t.nn = ctx.array('nn', (n, 3))
    Some.y, Some.z = ctx.array('y', (n,)), ctx.array('z', (n,))
    kw = {}
    axis = p['R'][:, 0]
    far = R + r
    opts = ctx.choose('options', ['defaults', 'given'])
    if opts == 'given':
        axis = ctx.array('axis', (3,))
        far = ctx.scalar('far', -50., 50.)
        kw = {'optimize_axis': ctx.hom(axis, 0), 'guess_distance': far,
              'normal_spec': ctx.hom(ctx.array('ns', (3,)), 1), 'parallel_spec': ctx.hom(ctx.array('ps', (3,)), 0), 'id_col': 'chip'}
    from marxs.simulator import simulator as sim
    made = []

    def fix(e1, efix):
        f = ctx.frame('f%d' % len(made))
        made.append((e1, efix, f))
        return f
    ctx.patch(sim, 'ex2vec_fix', fix)
    g = Some(rowland=t, d_element=[1., 1.], elem_class=Made, **kw)
    ctx.ensure('number of elements', len(g.elements) == n and len(t.asked) == n and len(made) == n)
    if not (len(g.elements) == len(t.asked) == len(made) == n):
        return
    for i in range(n):
        o, v, tr = t.asked[i]
        start = p['t'] + p['R'][:, 1] * Some.y[i] + p['R'][:, 2] * Some.z[i] + far * axis
        ctx.ensure('line starts at the place in the plane', ctx.alltrue(ctx.eq(o[:3], start), axis=0))
        ctx.ensure('along the axis', ctx.alltrue(ctx.eq(v, ctx.hom(axis, 0)), axis=0))
        ctx.ensure('global coordinates', tr is True)
        place = start + t.k[i] * axis
        ctx.ensure('centre', ctx.alltrue(ctx.eq(g.elements[i].pos4d[:3, 3], place), axis=0))
        for j in range(3):
            ctx.ensure('orientation', ctx.alltrue(ctx.eq(g.elements[i].pos4d[j, :3], made[i][2][j]), axis=0))
        if opts == 'defaults':
            ctx.ensure('normal asked for at the centre', ctx.alltrue(ctx.eq(t.points[i, :3], place), axis=0))
            ctx.ensure('faces inwards', ctx.alltrue(ctx.eq(made[i][0], -t.nn[i]), axis=0))
            ctx.ensure('along the axis of the torus', ctx.alltrue(ctx.eq(made[i][1], p['R'][:, 1]), axis=0))
        else:
            ctx.ensure('faces the point', ctx.alltrue(ctx.eq(made[i][0], place - kw['normal_spec'][:3]), axis=0))
            ctx.ensure('along the direction', ctx.alltrue(ctx.eq(made[i][1], kw['parallel_spec'][:3]), axis=0))
        ctx.ensure('column', g.elements[i].kw['id_col'] == kw.get('id_col', 'facet'))


@contract('P22', 'mesh', bounded='random radii and sizes with up to 40 elements in a row')
def mesh(ctx):
    """A ring is filled with rows at the given spacing; the elements of a row
    are that far apart at least and cover all of the ring up to one element."""
    R = float(ctx.scalar('R', 5., 100.))
    r0 = R * float(ctx.choose('inner', [0., .1, .5, .9])) * (1 + .01 * float(ctx.scalar('j', 0., 1.)))
    d = [float(ctx.scalar(k, R / 20, R / 2)) for k in ('dy', 'dz')]
    if ctx.choose('row through the centre', [True, False]):
        d[0] = 2 * R / 6
    y, z = (np.array(v, dtype=float) for v in bare(CircularMeshGrid, radius=[r0, R], d_element=d).elemposyz())
    rows = np.unique(y.round(9))
    ctx.ensure('rows at the given spacing', bool(np.allclose(np.diff(rows), d[0])))
    ctx.ensure('rows cover the circle', bool(-R - d[0] < rows[0] < -R + d[0] * (1 + 1e-6) and R - d[0] * (1 + 1e-6) < rows[-1] < R + d[0]))
    for q in rows:
        s = np.sort(z[np.abs(y - q) < 1e-6])
        ctx.ensure('elements do not overlap', bool(np.all(np.diff(s) > d[1] * (1 - 1e-9))))
        if abs(q) > R * (1 - 1e-7):
            ctx.ensure('one element at the rim', len(s) == 1 and bool(abs(s[0]) < d[1]))
            continue
        zo = np.sqrt(R**2 - q**2)
        zi = np.sqrt(r0**2 - q**2) if abs(q) < r0 else 0.
        for t in np.linspace(zi, zo, 7):
            ctx.ensure('ring is covered', bool(np.min(np.abs(s - t)) < d[1] * (1 + 1e-6) and np.min(np.abs(s + t)) < d[1] * (1 + 1e-6)))
        ctx.ensure('nothing far outside', bool(np.all(np.abs(s) < zo + d[1]) and (zi < d[1] or np.all(np.abs(s) > zi - d[1]))))
