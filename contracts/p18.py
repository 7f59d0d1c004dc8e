"""P18: sequences apply their elements in order with all hooks."""
import itertools
import numpy as np
from marxsvc.contract import contract
from marxs.simulator import Sequence, KeepCol, Propagator, propagate
from marxs.simulator.simulator import SimulationSetupError, BaseContainer
from marxs.optics.aperture import MultiAperture


class Tab(object):
    """an opaque photon table: all that happened to it, in order"""

    def __init__(self, log=()):
        self.log = list(log)


def hook(name):
    def h(t):
        t.log.append(name)
        return 'the value returned by a hook is not used'
    return h


def element(name, new):
    """an element that works in place or returns a new table"""
    def e(t):
        if new:
            r = Tab(t.log + [name])
            t.log.append('stale table')
            return r
        t.log.append(name)
        return t
    return e


class Element(object):
    def __init__(self, name, new):
        self.e = element(name, new)

    def __call__(self, t):
        return self.e(t)


def expect(names, pre, post):
    out = []
    for n in names:
        out += list(pre) + ([n] if isinstance(n, str) else n) + list(post)
    return out


@contract('P18', 'composition', sizes='0 to 3 elements with 0 to 2 hooks each, every mixture of elements that work in place or return a new table')
def composition(ctx):
    """The table goes through pre hooks, element and post hooks of each element
    in the order of the list; what an element returns is what the next one gets."""
    n = ctx.choose('elements', [0, 1, 2, 3])
    for npre, npost in itertools.product(range(3), repeat=2):
        for new in itertools.product([False, True], repeat=n):
            pre, post = ['pre%d' % i for i in range(npre)], ['post%d' % i for i in range(npost)]
            names = ['e%d' % i for i in range(n)]
            kw = {}
            if pre or n % 2:
                kw['preprocess_steps'] = [hook(x) for x in pre]
            if post or n % 2:
                kw['postprocess_steps'] = [hook(x) for x in post]
            s = Sequence(elements=[(element if i % 2 else Element)(x, f) for i, (x, f) in enumerate(zip(names, new))], **kw)
            for start in ([], ['before']):
                t = Tab(start)
                out = s(t)
                ctx.ensure('hooks and elements in order, each once', isinstance(out, Tab) and out.log == start + expect(names, pre, post))
                if not any(new):
                    ctx.ensure('the table itself is used', out is t)
            # a second run does the same again
            out = s(Tab())
            ctx.ensure('the same in the next run', out.log == expect(names, pre, post))


@contract('P18', 'nested', sizes='an inner sequence of 0 to 2 elements at every place among 0 to 2 others, 0 to 1 hooks in each')
def nested(ctx):
    """A sequence inside a sequence is one element of the outer one and runs its
    own elements and hooks; without outer hooks this is the flattened list."""
    n, m = ctx.choose('inner', [0, 1, 2]), ctx.choose('outer', [0, 1, 2])
    for at in range(m + 1):
        for hi, ho in itertools.product([0, 1], repeat=2):
            for new in (False, True):
                a, b = ['ipre'] * hi, ['ipost'] * hi
                c, d = ['opre'] * ho, ['opost'] * ho
                inner = Sequence(elements=[element('i%d' % i, new) for i in range(n)],
                                 preprocess_steps=[hook(x) for x in a], postprocess_steps=[hook(x) for x in b])
                el = [element('o%d' % i, new) for i in range(m)]
                el.insert(at, inner)
                names = ['o%d' % i for i in range(m)]
                names.insert(at, expect(['i%d' % i for i in range(n)], a, b))
                out = Sequence(elements=el, preprocess_steps=[hook(x) for x in c], postprocess_steps=[hook(x) for x in d])(Tab())
                ctx.ensure('inner sequence is one step of the outer one', out.log == expect(names, c, d))
                if not hi and not ho:
                    flat = []
                    for e in el:
                        flat += e.elements if e is inner else [e]
                    ctx.ensure('same as the flattened list', Sequence(elements=flat)(Tab()).log == out.log)


@contract('P18', 'independent', sizes='two sequences of one element')
def independent(ctx):
    """Hooks added to one sequence are not run by any other one."""
    a = Sequence(elements=[element('a', False)])
    b = Sequence(elements=[element('b', False)])
    a.preprocess_steps.append(hook('pre'))
    a.postprocess_steps.append(hook('post'))
    a.elements.append(element('a2', False))
    ctx.ensure('hooks added later are used', a(Tab()).log == ['pre', 'a', 'post', 'pre', 'a2', 'post'])
    ctx.ensure('not in another sequence', b(Tab()).log == ['b'])
    ctx.ensure('not in a new sequence', Sequence(elements=[element('c', False)])(Tab()).log == ['c'])


@contract('P18', 'refused', sizes='1 to 3 entries in each list')
def refused(ctx):
    """Elements and hooks that cannot be called are refused when the sequence is built."""
    where = ctx.choose('list', ['elements', 'preprocess_steps', 'postprocess_steps'])
    for n in (1, 2, 3):
        for bad in range(n):
            for what in (5, None, 'pos', [element('x', False)]):
                kw = {'elements': [element('e', False)]}
                kw[where] = [hook('h') for i in range(n)]
                kw[where][bad] = what
                ctx.raises('refused', SimulationSetupError, Sequence, **kw)
    ctx.raises('unknown keyword', ValueError, Sequence, elements=[], wrong=1)


@contract('P18', 'keepcol', sizes='2 steps')
def keepcol(ctx):
    """KeepCol records the column as it is after each step, whatever happens to
    the table later; a missing column is an error."""
    N = ctx.dim('N')
    name = ctx.choose('column', ['pos', 'energy', 'order'])
    shape = (N, 4) if name == 'pos' else (N,)
    v = [ctx.array('v%d' % i, shape) for i in range(3)]
    tab = ctx.table(N, {name: v[0], 'dir': ctx.array('d', (N, 4))})
    k = KeepCol(name)
    ctx.ensure('empty at first', len(k.data) == 0)

    def inplace(t):
        t[name][...] = v[1]
        return t

    def other(t):
        return ctx.table(N, {name: v[2]})
    out = Sequence(elements=[inplace, other], preprocess_steps=[k])(tab) if ctx.choose('hook', ['pre', 'post']) == 'pre' else None
    if out is None:
        out = Sequence(elements=[inplace, other], postprocess_steps=[k])(tab)
        want = [v[1], v[2]]
    else:
        want = [v[0], v[1]]
    out[name][...] = 0 * v[0]
    tab[name][...] = 0 * v[0]
    ctx.ensure('one record for each step', len(k.data) == 2)
    for g, w in zip(k.data, want):
        e = ctx.same(ctx.column({'x': g}, 'x'), w)
        ctx.ensure('the column after the step', ctx.alltrue(e, axis=1) if name == 'pos' else e)
    ctx.raises('column missing', KeyError, KeepCol('not there'), tab)
    ctx.ensure('separate records', len(KeepCol(name).data) == 0)


@contract('P18', 'format_positions', sizes='3 steps')
def fmt(ctx):
    """Recorded positions become an array photon x step x (x, y, z)."""
    N = ctx.dim('N')
    k = KeepCol('pos')
    ctx.raises('nothing recorded', ValueError, k.format_positions)
    scaled = ctx.choose('weights', ['one', 'others']) == 'others'
    p, w = [], []
    for i in range(3):
        p.append(ctx.array('p%d' % i, (N, 3)))
        # weights closer to 1 than the tolerance of allclose are taken as 1
        w.append(ctx.array('w%d' % i, (N, 1), 1.1, 2.) if scaled else 1. + 0. * p[i][:, :1])
        k(ctx.table(N, {'pos': ctx.np.concatenate([p[i] * w[i], w[i]], axis=1)}))
    d = k.format_positions()
    ctx.ensure('shape', d.ndim == 3 and d.shape[1] == 3 and d.shape[2] == 3)
    for i in range(3):
        ctx.ensure('positions of a step', ctx.alltrue(ctx.eq(d[:, i, :], p[i]), axis=1))
    k2 = KeepCol('energy')
    k2(ctx.table(N, {'energy': ctx.array('e', (N,))}))
    ctx.raises('not a position', ValueError, k2.format_positions)


@contract('P18', 'propagate')
def prop(ctx):
    """Propagating moves every photon by the distance along its own direction
    and changes nothing else."""
    N = ctx.dim('N')
    dist = ctx.scalar('dist', -1e3, 1e3)
    cols = {'pos': ctx.array('p', (N, 4)), 'dir': ctx.array('d', (N, 4)), 'energy': ctx.array('e', (N,))}
    tab = ctx.table(N, dict(cols))
    out = Propagator(distance=dist)(tab) if ctx.choose('form', ['element', 'function']) == 'element' else propagate(tab, dist)
    ctx.ensure('moved along the ray', ctx.alltrue(ctx.eq(ctx.column(out, 'pos'), cols['pos'] + dist * cols['dir']), axis=1))
    ctx.ensure('direction kept', ctx.alltrue(ctx.same(ctx.column(out, 'dir'), cols['dir']), axis=1))
    ctx.ensure('energy kept', ctx.same(ctx.column(out, 'energy'), cols['energy']))
