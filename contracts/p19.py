"""P19: Parallel assemblies place each part relative to the whole."""
import numpy as np
from marxsvc.contract import contract
from marxs.simulator import Parallel, Sequence, ParallelCalculated
from marxs.simulator.simulator import SimulationSetupError
from marxs.simulator import simulator as sim
from marxs.math.rotations import ex2vec_fix


class Part(object):
    """a part that records how it was made"""
    def __init__(self, **kwargs):
        self.kw = kwargs
        self.pos4d = kwargs['pos4d']
        self.id_num = kwargs['id_num']

    def __call__(self, log):
        return log + [self.id_num]


def same_matrix(ctx, name, a, b, tol=1e-6):
    ctx.shape_is(name + ': shape', a, (4, 4))
    for i in range(4):
        ctx.ensure(name, ctx.alltrue(ctx.eq(a[i], b[i], tol=tol), axis=0))


def put(ctx, R, t, z):
    """translation x rotation x zoom"""
    rows = [[R[i, j] * z[j] for j in range(3)] + [t[i]] for i in range(3)]
    return ctx.np.array(rows + [[0., 0., 0., 1.]])


def expected(ctx, P, U, s, e, g):
    """nominal place of a part: translations add up, rotations about its own
    centre, zooms multiply; then the uncertainty of the whole, then its place."""
    R = np.dot(s['R'], np.dot(e['R'], g['R'])) if s else np.dot(e['R'], g['R'])
    t = e['t'] + g['t'] + (s['t'] if s else 0.)
    z = e['zoom'] * g['zoom'] * (s['zoom'] if s else 1.)
    loc = put(ctx, R, t, z)
    if U is not None:
        loc = np.dot(U, loc)
    return np.dot(P, loc)


@contract('P19', 'nominal', sizes='1 to 3 parts', timeout=30)
def nominal(ctx):
    """Each part is at the place of the assembly times its own place times the
    placement common to all parts."""
    n = ctx.choose('n', [1, 2, 3])
    P, p = ctx.placement('P')
    e = [ctx.placement('e%d' % i) for i in range(n)]
    G, g = ctx.placement('g')
    form = ctx.choose('form', ['matrices', 'pos4d', 'position', 'keywords'])
    kw = {'pos4d': P} if form != 'keywords' else {'position': p['t'], 'orientation': p['R'], 'zoom': p['zoom']}
    common = {'pos4d': G} if form in ('matrices', 'pos4d') else {'position': g['t'], 'orientation': g['R'], 'zoom': g['zoom']}
    if form == 'matrices':
        epos = [x for x, _ in e]
    elif form == 'pos4d':
        epos = {'pos4d': [x for x, _ in e]}
    else:
        epos = {'position': [x['t'] for _, x in e], 'orientation': [x['R'] for _, x in e], 'zoom': [x['zoom'] for _, x in e]}
    common['extra'] = 'x'
    before = dict(common)
    a = Parallel(elem_class=Part, elem_pos=epos, elem_args=common, **kw)
    ctx.ensure('one part for each place', len(a.elements) == n)
    for i, x in enumerate(a.elements):
        same_matrix(ctx, 'placement of a part', x.pos4d, expected(ctx, P, None, None, e[i][1], g))
        ctx.ensure('numbered from 0', x.id_num == i)
        ctx.ensure('arguments', x.kw['extra'] == 'x' and x.kw['id_col'] == 'element' and not set(x.kw) - {'pos4d', 'id_num', 'extra', 'id_col', 'name'})
    ctx.ensure('argument dictionary not changed', set(before) == set(common) and all(before[k] is common[k] for k in before))


@contract('P19', 'uncertainties', sizes='2 parts', timeout=60)
def uncertainties(ctx):
    """Uncertainties of the parts turn, shift and scale each part about its own
    centre, that of the whole comes after that; in whatever order they are set."""
    P, p = ctx.placement('P')
    U, u = ctx.placement('U')
    e = [ctx.placement('e%d' % i, zoom=(1., 1., 1.)) for i in range(2)]
    s = [ctx.placement('s%d' % i) for i in range(2)]
    G, g = ctx.placement('g', zoom=(1., 2., 3.))
    a = Parallel(elem_class=Part, elem_pos=[x for x, _ in e], elem_args={'pos4d': G}, pos4d=P)
    order = ctx.choose('order', ['parts first', 'whole first', 'in between', 'twice', 'place last'])
    if order == 'parts first':
        a.elem_uncertainty = [x for x, _ in s]
        a.uncertainty = U
    elif order == 'whole first':
        a.uncertainty = U
        a.elem_uncertainty = [x for x, _ in s]
    elif order == 'in between':
        a.uncertainty = U
        a.generate_elements()
        a.elem_uncertainty[0] = s[0][0]
        a.generate_elements()
        a.elem_uncertainty[1] = s[1][0]
    elif order == 'twice':
        a.uncertainty = G
        a.elem_uncertainty = [G, P]
        a.generate_elements()
        a.uncertainty = U
        a.elem_uncertainty = [x for x, _ in s]
        a.generate_elements()
    else:
        a.geometry.pos4d = U
        a.elem_pos = [G, G]
        a.generate_elements()
        a.elem_uncertainty = [x for x, _ in s]
        a.uncertainty = U
        a.elem_pos = [x for x, _ in e]
        a.geometry.pos4d = P
    a.generate_elements()
    ctx.ensure('as many parts', len(a.elements) == 2)
    for i, x in enumerate(a.elements):
        same_matrix(ctx, 'placement of a part', x.pos4d, expected(ctx, P, U, s[i][1], e[i][1], g))
        ctx.ensure('same number', x.id_num == i)
    b = Parallel(elem_class=Part, elem_pos=[e[0][0]], pos4d=P)
    same_matrix(ctx, 'another assembly', b.elements[0].pos4d, np.dot(P, e[0][0]))


@contract('P19', 'move_center', sizes='2 parts', timeout=60)
def move_center(ctx):
    """Moving the centre leaves all parts where they are; the centre moves by
    exactly the change, and an uncertainty then acts about the new centre."""
    P, p = ctx.placement('P', zoom=(1., 1., 1.))
    C, c = ctx.placement('C', zoom=(1., 1., 1.))
    e = [ctx.placement('e%d' % i, zoom=(1., 1., 1.)) for i in range(2)]
    G, g = ctx.placement('g', zoom=(1., 2., 3.))
    g0 = {'R': g['R'], 't': np.zeros(3), 'zoom': g['zoom']}
    a = Parallel(elem_class=Part, elem_pos=[x for x, _ in e], elem_args={'orientation': g['R'], 'zoom': g['zoom']}, pos4d=P)
    a.move_center(C)
    same_matrix(ctx, 'centre moved', a.pos4d, np.dot(C, P))
    for i, x in enumerate(a.elements):
        same_matrix(ctx, 'parts stay', x.pos4d, expected(ctx, P, None, None, e[i][1], g0))


@contract('P19', 'arguments', sizes='2 parts')
def arguments(ctx):
    """A list with one entry for each part gives each its own value, everything
    else goes to all; parts are numbered from the offset on; each gets a name."""
    off = ctx.choose('offset', [0, 7, -3])
    v = [ctx.scalar('v%d' % i) for i in range(2)]
    f = [ctx.placement('g%d' % i) for i in range(2)]
    e = [ctx.placement('e%d' % i, zoom=(1., 1., 1.)) for i in range(2)]
    args = {'own': [v[0], v[1]], 'three': [1, 2, 3], 'tup': (5, 6), 'one': v[0], 'text': 'ab', 'pos4d': [f[0][0], f[1][0]]}
    named = ctx.choose('name', [None, 'list'])
    if named:
        args['name'] = ['first', 'second']
    if ctx.choose('id_col', ['default', 'own']) == 'own':
        args['id_col'] = 'chip'
    keep = dict(args)
    a = Parallel(elem_class=Part, elem_pos=[x for x, _ in e], elem_args=args, id_num_offset=off, name='all')
    for k in range(2):
        for i, x in enumerate(a.elements):
            ctx.ensure('number', x.id_num == off + i)
            ctx.ensure('own value', x.kw['own'] is v[i])
            ctx.ensure('common values', x.kw['three'] == [1, 2, 3] and x.kw['tup'] == (5, 6) and x.kw['one'] is v[0] and x.kw['text'] == 'ab')
            ctx.ensure('column', x.kw['id_col'] == keep.get('id_col', 'element'))
            if named:
                ctx.ensure('name', x.kw['name'] == ['first', 'second'][i])
            same_matrix(ctx, 'own shape', x.pos4d, expected(ctx, np.eye(4), None, None, e[i][1], f[i][1]))
        names = [x.kw['name'] for x in a.elements]
        ctx.ensure('names differ', names[0] != names[1])
        a.generate_elements()
    ctx.ensure('dictionary not changed', keep.keys() == args.keys() and all(keep[k] is args[k] for k in keep))
    # photons go through all parts in turn
    ctx.ensure('each part once', a([]) == [off, off + 1])
    a.elements = a.elements[::-1]
    ctx.ensure('in the order of the parts', a([]) == [off + 1, off])


@contract('P19', 'refused', sizes='1 to 3 parts')
def refused(ctx):
    """Lists of different length and shear are refused."""
    t = [ctx.array('t%d' % i, (3,)) for i in range(3)]
    for n, m in ((1, 2), (2, 1), (2, 3), (3, 2), (0, 1), (1, 0)):
        for names in (('position', 'zoom'), ('zoom', 'position')):
            lists = {'position': t[:n], 'zoom': [1., 2., 3.][:m]}
            ctx.raises('different lengths', ValueError, Parallel, elem_class=Part, elem_pos={k: lists[k] for k in names})
    ctx.raises('different lengths of three', ValueError, Parallel, elem_class=Part,
               elem_pos={'position': t[:2], 'zoom': [1., 2.], 'orientation': [np.eye(3)]})
    ctx.raises('no lists', ValueError, Parallel, elem_class=Part, elem_pos={'position': t[:1], 'zoom': 5.})
    h = ctx.scalar('h', .1, 2.)
    S = ctx.np.array([[1., h, 0, 0], [0, 1., 0, 0], [0, 0, 1., 0], [0, 0, 0, 1.]])
    ctx.raises('shear for all', ValueError, Parallel, elem_class=Part, elem_args={'pos4d': S}, elem_pos=[np.eye(4)])
    a = Parallel(elem_class=Part, elem_pos=[np.eye(4)] * 2)
    a.elem_uncertainty = [np.eye(4), S]
    ctx.raises('shear as uncertainty', SimulationSetupError, a.generate_elements)
    ctx.raises('unknown keyword', ValueError, Parallel, elem_class=Part, elem_pos=[np.eye(4)], wrong=5)


@contract('P19', 'calculated', sizes='1 to 3 parts')
def calculated(ctx):
    """Parts of an assembly with calculated places sit at the given points with
    their x axis along the direction asked for and the y axis fixed by the other one."""
    n = ctx.choose('n', [1, 2, 3])
    xyz = ctx.array('xyz', (n, 3))
    made = []

    def fix(e1, efix):
        f = ctx.frame('f%d' % len(made))
        made.append((e1, efix, f))
        return f
    ctx.patch(sim, 'ex2vec_fix', fix)
    w = ctx.array('w', (3,))
    q = ctx.array('q', (3,))
    how = ctx.choose('specs', ['points', 'directions', 'functions'])
    pos = ctx.np.concatenate([xyz, ctx.np.ones((n, 1))], axis=1)
    nn, pp = ctx.array('nn', (n, 3)), ctx.array('pp', (n, 3))
    calls = []
    if how == 'points':
        a = ParallelCalculated(elem_class=Part, pos_spec=pos, normal_spec=ctx.hom(w, 1), parallel_spec=ctx.hom(q, 1))
    elif how == 'directions':
        a = ParallelCalculated(elem_class=Part, pos_spec=pos, normal_spec=ctx.hom(w, 0), parallel_spec=ctx.hom(q, 0))
    else:
        def normal(p):
            calls.append((p,))
            return ctx.hom(nn, 0)

        def parallel(p, m):
            calls.append((p, m))
            return ctx.hom(pp, 0)
        a = ParallelCalculated(elem_class=Part, pos_spec=lambda: pos, normal_spec=normal, parallel_spec=parallel)
    ctx.ensure('number of parts', len(a.elements) == n and len(made) == n)
    for i in range(min(n, len(made))):
        e1, ef, f = made[i]
        want = {'points': (xyz[i] - w, xyz[i] - q), 'directions': (w, q), 'functions': (nn[i], pp[i])}[how]
        ctx.ensure('normal', ctx.alltrue(ctx.eq(e1, want[0]), axis=0))
        ctx.ensure('second direction', ctx.alltrue(ctx.eq(ef, want[1]), axis=0))
        same_matrix(ctx, 'place of a part', a.elements[i].pos4d, put(ctx, f, xyz[i], np.ones(3)))
    ctx.raises('bad specification', ValueError, ParallelCalculated, elem_class=Part, pos_spec=pos, normal_spec=[0., 1.], parallel_spec=ctx.hom(q, 0))
