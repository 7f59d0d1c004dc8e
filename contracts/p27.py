"""P27: Geometry for display shows the real shape and colours."""
import itertools
import types
import warnings
import numpy as np
from marxsvc.contract import contract
from marxs.math import geometry as geo
from marxs.visualization import utils as vu


def numbers(ctx, tri):
    """indices of points as integers (they do not depend on the coordinates)"""
    return [[int(tri[i, j]) for j in range(3)] for i in range(len(tri))]


def between(ctx, tri, n_out, n_in):
    """The triangles fill the space between two closed lines with n_out and n_in
    points, without overlap."""
    n = n_out + n_in
    inside = all(0 <= a < n for t in tri for a in t)
    ctx.ensure('indices in the table', inside)
    if not inside:
        return
    ctx.ensure('every point used', {a for t in tri for a in t} == set(range(n)))
    edges = {}
    for t in tri:
        for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
            edges[(a, b)] = edges.get((a, b), 0) + 1
    ctx.ensure('no edge twice in the same direction', all(v == 1 for v in edges.values()))
    border = {frozenset((i, (i + 1) % n_out)) for i in range(n_out)} | \
        {frozenset((n_out + i, n_out + (i + 1) % n_in)) for i in range(n_in)}
    alone = {frozenset(e) for e in edges if (e[1], e[0]) not in edges}
    ctx.ensure('open edges are those of the two lines', alone == border)
    if max(n_out, n_in) > 6 * min(n_out, n_in):
        # very different numbers of points: thin triangles may reach behind the hole
        return
    # area, for regular polygons
    c = [np.exp(2j * np.pi * i / n_out) for i in range(n_out)] + \
        [.2 * np.exp(2j * np.pi * i / n_in) for i in range(n_in)]
    area = [.5 * ((c[t[1]] - c[t[0]]).conjugate() * (c[t[2]] - c[t[0]])).imag for t in tri]
    full = .5 * n_out * np.sin(2 * np.pi / n_out) - .02 * n_in * np.sin(2 * np.pi / n_in)
    ctx.ensure('same side up', all(a > 0 for a in area) or all(a < 0 for a in area))
    ctx.ensure('area', abs(abs(sum(area)) - full) < 1e-9)


SIZES = [(a, b) for a in range(3, 8) for b in range(3, 8)] + \
    [(4, 90), (90, 4), (90, 90), (37, 11), (11, 37), (49, 100), (3, 50), (50, 3)]


@contract('P27', 'hole', sizes='3 to 7 points on each line, and 8 pairs up to 100', trials=80, max_paths=60)
def hole(ctx):
    """A plane with a hole: all points of both lines, and triangles which fill the
    space between the lines without overlap and nothing else."""
    n_out, n_in = ctx.choose('number of points', SIZES)
    outer, inner = ctx.array('outer', (n_out, 3)), ctx.array('inner', (n_in, 3))
    xyz, tri = vu.plane_with_hole(outer, inner)
    if not ctx.shape_is('points', xyz, (n_out + n_in, 3)):
        return
    ctx.ensure('outer line', ctx.all(ctx.eq(xyz[:n_out], outer)))
    ctx.ensure('inner line', ctx.all(ctx.eq(xyz[n_out:], inner)))
    between(ctx, numbers(ctx, tri), n_out, n_in)


@contract('P27', 'combine', sizes='1 to 4 triangulations with 3 to 6 points')
def combine(ctx):
    """Joined triangulations hold the triangles of each, with the same corners."""
    which = ctx.choose('sizes', [[3], [4, 3], [3, 6], [5, 3, 4], [3, 4, 5], [4, 4, 4, 4], [3, 6, 4, 5]])
    xyz = [ctx.array('xyz%d' % i, (n, 3)) for i, n in enumerate(which)]
    m = ctx.choose('triangles', [1, 2, 5])
    tri = [np.array([[(5 * r + 3 * i + k * (1 + r % 2)) % n for k in range(3)] for r in range(m + i)])
           for i, n in enumerate(which)]
    points, triangles = vu.combine_disjoint_triangulations(xyz, tri)
    if not ctx.shape_is('points', points, (sum(which), 3)):
        return
    if not ctx.shape_is('triangles', triangles, (sum(m + i for i in range(len(which))), 3)):
        return
    row = 0
    out = numbers(ctx, triangles)
    for p, t in zip(xyz, tri):
        for r in range(len(t)):
            for k in range(3):
                a = out[row][k]
                ctx.ensure('index in the table', 0 <= a < sum(which))
                ctx.ensure('corner', ctx.all(ctx.eq(points[a % sum(which)], p[int(t[r, k])])))
            row += 1
    first = 0
    for p in xyz:
        ctx.ensure('every point kept', ctx.all(ctx.eq(points[first:first + len(p)], p)))
        first += len(p)


def in_wedge(a, lim):
    return any(lim[0] <= a + k * 2 * np.pi < lim[1] for k in (-2, -1, 0, 1, 2))


WEDGES = [[0, 2 * np.pi], [0.1, 1.], [-1., 1.], [3., 4.5], [5., 7.], [-2., 3.], [-3., -2.5]]


def circle_points(ctx, pt, f, lim, n):
    R, z, t = pt['R'], pt['zoom'], pt['t']
    angles = ctx.np.linspace(.5 * np.pi, 2.5 * np.pi, n, endpoint=False)
    c, s = ctx.np.cos, ctx.np.sin
    for a, x in zip(angles, np.linspace(.5, 2.5, n, endpoint=False)):
        inside = float(in_wedge(float(x) * 3.141592653589793, lim))
        yield [t[k] + f * inside * (c(a) * z[1] * R[k, 1] + s(a) * z[2] * R[k, 2]) for k in range(3)]


def square_points(ctx, pt, f):
    R, z, t = pt['R'], pt['zoom'], pt['t']
    for a, b in ((1, 1), (-1, 1), (-1, -1), (1, -1)):
        yield [t[k] + f * (a * z[1] * R[k, 1] + b * z[2] * R[k, 2]) for k in range(3)]


@contract('P27', 'circle', sizes='5, 8 or 12 points, 7 wedges', max_paths=60)
def circle(ctx):
    """The points of a circle lie on the ellipse given by the element's placement;
    outside of the wedge they are in the centre."""
    P, pt = ctx.placement('P')
    n = ctx.choose('n', [5, 8, 12])
    lim = ctx.choose('wedge', WEDGES)
    f = ctx.scalar('factor', 0., 4.)
    g = geo.FinitePlane({'pos4d': P})
    out = geo.xyz_circle(g, f, lim, n)
    if not ctx.shape_is('points', out, (n, 3)):
        return
    for i, w in enumerate(circle_points(ctx, pt, f, lim, n)):
        for k in range(3):
            ctx.ensure('on the ellipse', ctx.eq(out[i, k], w[k], tol=1e-9))


@contract('P27', 'rectangle')
def rectangle(ctx):
    """The display of a rectangular hole is the plane between the hole and the
    outer edge, in the place of the element."""
    P, pt = ctx.placement('P')
    f = ctx.scalar('factor', 1.1, 4.)
    g = geo.RectangleHole({'pos4d': P})
    xyz, tri = g.triangulate({'outer_factor': f})
    want = list(square_points(ctx, pt, f)) + list(square_points(ctx, pt, 1.))
    if not ctx.shape_is('points', xyz, (8, 3)):
        return
    for i, w in enumerate(want):
        for k in range(3):
            ctx.ensure('corner', ctx.eq(xyz[i, k], w[k], tol=1e-9))
    between(ctx, numbers(ctx, tri), 4, 4)


@contract('P27', 'circular_hole', sizes='6 points in place of the 90 on each line')
def circular_hole(ctx):
    """The display of a circular hole or ring is the plane outside and the disk
    inside, each with the limits of the hole and of the display."""
    P, pt = ctx.placement('P')
    n = 6
    f = ctx.scalar('factor', 1.1, 4.)
    inner_f = ctx.scalar('inner factor', 0., .9)
    lim = ctx.choose('wedge', WEDGES[:3])
    ring = ctx.choose('ring', ['disk', 'ring'])
    kw = {'pos4d': P, 'phi': lim}
    r = 0.
    if ring == 'ring':
        r = kw['r_inner'] = ctx.scalar('r', .1, 5.)
    real = geo.xyz_circle
    ctx.patch(geo, 'xyz_circle', lambda *a, **k: real(*a, **dict(k, n_vertices=n)))
    g = geo.CircularHole(kw)
    xyz, tri = g.triangulate({'outer_factor': f, 'inner_factor': inner_f})
    want = list(circle_points(ctx, pt, f, [0, 2 * np.pi], n)) + list(circle_points(ctx, pt, 1., lim, n))
    if ring == 'ring':
        s = r / pt['zoom'][1]
        want += list(circle_points(ctx, pt, s, lim, n)) + list(circle_points(ctx, pt, inner_f * s, lim, n))
    if not ctx.shape_is('points', xyz, (len(want), 3)):
        return
    for i, w in enumerate(want):
        for k in range(3):
            ctx.ensure('point', ctx.eq(xyz[i, k], w[k], tol=1e-7))
    tri = numbers(ctx, tri)
    out = [t for t in tri if max(t) < 2 * n]
    between(ctx, out, n, n)
    rest = [[a - 2 * n for a in t] for t in tri if max(t) >= 2 * n]
    if ring == 'ring':
        between(ctx, rest, n, n)
    else:
        ctx.ensure('nothing inside', not rest)


@contract('P27', 'box')
def box(ctx):
    """The corners of the box are those of the placed element; the half that is
    not asked for is cut away at the centre."""
    P, pt = ctx.placement('P')
    R, z, t = pt['R'], pt['zoom'], pt['t']
    half = ctx.choose('half', [None, '+x', '-x', '+y', '-y', '+z', '-z', '', 'all', '+a', 3])
    display = {} if half is None else {'box-half': half}
    out = vu.halfbox_corners(types.SimpleNamespace(pos4d=P), display)
    if not ctx.shape_is('corners', out, (8, 3)):
        return
    corners = [(a, b, c) for a in (-1, 1) for c in (-1, 1) for b in (-1, 1)]
    for i, c in enumerate(corners):
        c = list(c)
        if isinstance(half, str) and len(half) == 2 and half[1] in 'xyz':
            j = 'xyz'.index(half[1])
            if c[j] == (1 if half[0] == '+' else -1):
                c[j] = 0
        for k in range(3):
            ctx.ensure('corner', ctx.eq(out[i, k], t[k] + sum(c[j] * z[j] * R[k, j] for j in range(3)), tol=1e-9))


def channels(out):
    """value of each channel; None for anything that is no number for a colour"""
    if not (isinstance(out, str) and out[:2] == '0x' and len(out) == 8):
        return None
    return [int(out[i:i + 2], 16) for i in (2, 4, 6)]


@contract('P27', 'color_int', sizes='11 values for each channel', trials=3)
def color_int(ctx):
    """Colours given as three whole numbers are read back from the text unchanged."""
    vals = [0, 1, 9, 10, 15, 16, 127, 128, 200, 254, 255]
    for c in itertools.product(vals, vals, vals):
        ctx.ensure('channels', channels(vu.color_tuple_to_hex(c)) == list(c))
    for i in range(3):
        for x in (-1, 256, 1000):
            bad = [17, 200, 3]
            bad[i] = x
            ctx.raises('out of range', ValueError, vu.color_tuple_to_hex, tuple(bad))


@contract('P27', 'color_float', sizes='9 values for each channel', trials=3)
def color_float(ctx):
    """Colours given as three floats: each channel is the float times 255, within
    one step."""
    vals = [0., 1., .5, .25, .75, .1, .9, .33, .999]
    for c in itertools.product(vals, vals, vals):
        text = vu.color_tuple_to_hex(c)
        out = channels(text)
        ctx.ensure('a colour', out is not None)
        if out is None:
            continue
        near = [abs(out[i] - 255 * c[i]) < 1.01 for i in range(3)]
        # steps of the finer channels carry over to the coarser ones
        ctx.ensure('red', near[0])
        if c[0] in (0., 1.):
            ctx.ensure('green', near[1])
            if c[1] in (0., 1.):
                ctx.ensure('blue', near[2])
        # known finding (see color_mix): the steps are carried over and nothing else happens
        number = 255 * (256**2 * c[0] + 256 * c[1] + c[2])
        ctx.ensure('all channels', all(near) or abs(int(text, 16) - number) <= 1)
    for i in range(3):
        for x in (-.01, 1.01, 1):
            bad = [.5, .2, 1.]
            bad[i] = x
            ctx.raises('out of range or of mixed types', ValueError, vu.color_tuple_to_hex, tuple(bad))


@contract('P27', 'color_mix', sizes='one colour', trials=3)
def color_mix(ctx):
    """The green channel does not change the blue one."""
    out = channels(vu.color_tuple_to_hex((0., .75, .75)))
    ctx.ensure('channels are independent', out is not None and abs(out[1] - 191.25) < 1.01 and abs(out[2] - 191.25) < 1.01)


@contract('P27', 'settings')
def settings(ctx):
    """Display settings are used where given; the others come from the geometry of
    the element; setting them leaves the geometry alone."""
    a, b, c, a0 = ctx.scalar('a'), ctx.scalar('b'), ctx.scalar('c'), ctx.scalar('a0')
    g = types.SimpleNamespace(one=a0, two=b)
    has = ctx.choose('geometry', [True, False])
    parent = types.SimpleNamespace(geometry=g) if has else types.SimpleNamespace()
    d = vu.DisplayDict(parent, {'two': c})
    ctx.ensure('given', ctx.eq(d['two'], c) & ctx.eq(d.get('two'), c))
    if has:
        ctx.ensure('before a change', ctx.eq(d['one'], a0) & ctx.eq(d.get('one'), a0))
        g.one = a
        ctx.ensure('from geometry', ctx.eq(d['one'], a) & ctx.eq(d.get('one'), a))
        d['one'] = c
        ctx.ensure('now given', ctx.eq(d['one'], c))
        ctx.ensure('geometry not changed', ctx.eq(g.one, a) & ctx.eq(g.two, b))
        g.three = b
        ctx.ensure('current geometry', ctx.eq(d['three'], b))
    else:
        ctx.raises('missing', KeyError, lambda: d['one'])
    ctx.raises('missing', KeyError, lambda: d['other'])
    ctx.ensure('default', ctx.eq(d.get('other', a), a) and d.get('other') is None)


@contract('P27', 'colors')
def colors(ctx):
    """A tuple of three floats is the colour itself, no colour is white, and
    everything else is translated; the setting is not changed."""
    c = ctx.choose('color', [(0., .5, 1.), [1., 0., .25], 'red', '#0000ff', None, (0., .0, .0)])
    want = {'red': (1., 0., 0.), '#0000ff': (0., 0., 1.)}.get(c) if isinstance(c, str) else \
        ((1., 1., 1.) if c is None else tuple(c))
    d = {} if c is None else {'color': c}
    out = vu.get_color(d)
    ctx.ensure('color', tuple(out) == want)
    ctx.ensure('setting not changed', d == ({} if c is None else {'color': c}))


@contract('P27', 'dispatch')
def dispatch(ctx):
    """The first shape of the list that can be plotted is plotted, with the display
    settings and a valid colour; nothing else is."""
    calls = []
    reg = {k: (lambda k: lambda obj, display, **kw: calls.append((k, obj, display, kw)) or k)(k)
           for k in ('box', 'surface')}
    shape = ctx.choose('shape', ['box', 'surface', 'cylinder; box', 'surface ;box', 'cylinder; None; box',
                                 'None', 'cylinder', 'box; surface', 'None; box'])
    want = {'box': 'box', 'surface': 'surface', 'cylinder; box': 'box', 'surface ;box': 'surface',
            'box; surface': 'box'}.get(shape)
    own = ctx.choose('display', ['own', 'argument', 'none', 'no shape'])
    disp = {'shape': shape, 'color': 'red'}
    obj = types.SimpleNamespace(name='obj')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if own == 'own':
            obj.display = disp
            out = vu.plot_object_general(reg, obj, extra=3)
        elif own == 'argument':
            obj.display = {'shape': 'box'}
            out = vu.plot_object_general(reg, obj, disp, extra=3)
        else:
            obj.display = None if own == 'none' else {'color': 'red'}
            ctx.ensure('skipped', vu.plot_object_general(reg, obj, extra=3) is None and not calls)
            return
    ctx.ensure('result', out == want)
    if want is None:
        ctx.ensure('nothing plotted', not calls)
    else:
        ctx.ensure('plotted once', len(calls) == 1 and calls[0][0] == want and calls[0][1] is obj
                   and calls[0][3] == {'extra': 3})
        ctx.ensure('color', tuple(calls[0][2]['color']) == (1., 0., 0.) and calls[0][2]['shape'] == shape)
