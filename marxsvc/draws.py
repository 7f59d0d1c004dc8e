"""Ghost access to the random numbers the code draws, in both modes.

The numbers stay arbitrary within the support of their distribution; the
contract only gets to see them."""
import sys
import numpy as np
from .terms import Unsupported


def _size(size, *pars):
    if size is None:
        ax = ()
        for p in pars:
            s = getattr(p, 'axes', None)
            s = np.shape(p) if s is None else s
            ax = s if len(s) > len(ax) else ax
        return tuple(ax)
    if isinstance(size, (tuple, list)):
        return tuple(size)
    return (size,)


class Draws(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.z, self.u, self.choices, self.poissons = [], [], [], []
        self.active = True
        self.replay_u = self.replay_z = None

    def _new(self, kind, shape, *rng):
        lst = getattr(self, kind)
        rep = getattr(self, 'replay_' + kind)
        if rep is not None and len(lst) < len(rep):
            a = rep[len(lst)]
        else:
            # very small and very large, but not arbitrarily large, in the replays
            gen = None if kind == 'u' else (lambda r, s: r.normal(size=s) * r.choice([0.1, 1., 3.]))
            if self.ctx.mode == 'sym':
                from . import symarr as sa
                shape = sa.toshape(shape)
            a = self.ctx.array('draw.%s%d' % (kind, len(lst)), shape, *rng, gen=gen)
        lst.append(a)
        return a

    def normal(self, loc=0.0, scale=1.0, size=None):
        z = self._new('z', _size(size, loc, scale))
        sym = self.ctx.mode == 'sym'
        if sym:
            from . import npshim
            r = npshim.RandomShim()
            r.normal(loc, scale, size)        # (the obligation that the width is not negative)
        elif np.any(np.asarray(scale) < 0):
            raise ValueError('scale < 0')
        return loc + z * scale

    def standard_normal(self, size=None):
        return self._new('z', _size(size))

    def randn(self, *shape):
        return self._new('z', tuple(shape))

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._new('u', _size(size, low, high), 0., 1., (False, True))
        return low + u * (high - low)

    def rand(self, *shape):
        return self._new('u', tuple(shape), 0., 1., (False, True))

    def random(self, size=None):
        return self._new('u', _size(size), 0., 1., (False, True))

    random_sample = ranf = sample = random

    def choice(self, a, size=None, replace=True, p=None):
        if replace is not True:
            raise Unsupported('choice without replacement')
        n = int(a) if isinstance(a, (int, np.integer)) else len(a)
        ctx = self.ctx
        name = 'draw.choice%d' % len(self.choices)
        if ctx.mode == 'sym':
            from . import npshim
            from . import symarr as sa
            ind = npshim.RandomShim().choice(n, size=size, p=p)
            if np.isscalar(a) or isinstance(a, (int, np.integer)):
                out = ind
            else:
                out = sa.asym(a)[ind]
        else:
            if p is None:
                ok = np.arange(n)
            else:
                pp = np.asarray(p, dtype=float)
                if pp.shape != (n,) or np.any(pp < 0) or abs(pp.sum() - 1) > 1e-8 or not np.all(np.isfinite(pp)):
                    raise ValueError('probabilities do not sum to 1')
                ok = np.flatnonzero(pp > 0)
            ind = ok[ctx.rng.randint(len(ok), size=size)]
            out = ind if isinstance(a, (int, np.integer)) else np.asarray(a)[ind]
        self.choices.append({'a': a, 'p': p, 'size': size, 'ind': ind})
        return out

    def poisson(self, lam=1.0, size=None):
        shape = _size(size, lam)
        if self.ctx.mode == 'sym':
            from . import symarr as sa
            shape = sa.toshape(shape)
        a = self.ctx.array('draw.p%d' % len(self.poissons), shape, 0, 20, kind='i')
        self.poissons.append({'lam': lam, 'out': a})
        return a

    def need(self, **n):
        """the way the contract is written needs these draws; code that draws
        its numbers otherwise is out of its reach"""
        for k, v in n.items():
            if len(getattr(self, k)) != v:
                if self.ctx.mode == 'sym':
                    raise Unsupported("the code draws its random numbers in another way (%s: %d, not %d)" % (k, len(getattr(self, k)), v))
                from .conc import Rejected
                raise Rejected()


    def shuffle(self, x):
        """A permutation of rows.  What is shuffled must be a function of the
        row's own random numbers: those are independent and arbitrary, so the
        order does not matter, and the rows stay where they are."""
        if self.ctx.mode == 'sym':
            from . import symarr as sa
            from . import terms as tm
            x = sa.asym(x)
            seen = set()

            def go(t):
                if t in seen or not isinstance(t, tm.T):
                    return
                seen.add(t)
                if t.op == 'var':
                    if t.args[1] is not None and not t.args[0].startswith('draw.'):
                        raise Unsupported('shuffle of columns')
                    return
                if t.op in ('rownum', 'agg', 'aggb'):
                    raise Unsupported('shuffle of row numbers')
                for y in t.args:
                    go(y)
            for t in x.p.ravel():
                go(t)

    def jacobian(self, f):
        """f() -> two arrays that depend on two arrays of random numbers of the
        same shape; returns the two arrays and the determinant of the
        derivatives with respect to the random numbers of the same row"""
        n = len(self.u)
        x, y = f()
        if len(self.u) != n + 2:
            self.need(u=n + 2)
        u, v = self.u[n], self.u[n + 1]
        if self.ctx.mode == 'sym':
            from . import symarr as sa
            from . import terms as tm
            if u.axes != v.axes or u.p.size != 1 or x.p.size != 1:
                raise Unsupported('random numbers of another shape')
            a, b = u.p.ravel()[0], v.p.ravel()[0]
            X, Y = x.p.ravel()[0], y.p.ravel()[0]
            if not (isinstance(X, tm.T) and isinstance(Y, tm.T)):
                raise Unsupported('positions may be NaN')
            det = tm.t_sub(tm.t_mul(tm.diff(X, a), tm.diff(Y, b)), tm.t_mul(tm.diff(X, b), tm.diff(Y, a)))
            p = np.empty(x.p.shape, dtype=object)
            p[...] = det
            return x, y, sa.SymArray(p, x.axes, 'f')
        h = 1e-6
        D = []
        for k in (0, 1):
            e = []
            for sgn in (1, -1):
                rep = [np.array(w) for w in (u, v)]
                rep[k] = rep[k] + sgn * h
                saved = self.u, self.replay_u
                self.u, self.replay_u = [], rep
                try:
                    e.append([np.array(w, dtype=float) for w in f()])
                finally:
                    self.u, self.replay_u = saved
            D.append([(e[0][i] - e[1][i]) / (2 * h) for i in (0, 1)])
        return x, y, D[0][0] * D[1][1] - D[0][1] * D[1][0]


NAMES = ('normal', 'standard_normal', 'randn', 'uniform', 'rand', 'random', 'random_sample', 'ranf', 'sample', 'choice', 'poisson',
         'shuffle')


def hook_numpy(d):
    """concrete mode: replace numpy.random functions; returns the undo list"""
    saved = []
    real = {}
    for n in NAMES:
        real[id(getattr(np.random, n))] = n
        saved.append((np.random.__dict__, n, getattr(np.random, n)))
    for mn, m in list(sys.modules.items()):
        if m is not None and (mn == 'marxs' or mn.startswith('marxs.')):
            for k, v in list(getattr(m, '__dict__', {}).items()):
                n = getattr(v, '__name__', None)
                if n in NAMES and getattr(getattr(v, '__self__', None), '__class__', None).__name__ == 'RandomState':
                    saved.append((m.__dict__, k, v))
                    m.__dict__[k] = getattr(d, n)
    for n in NAMES:
        setattr(np.random, n, getattr(d, n))
    return saved
