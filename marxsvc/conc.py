"""Concrete context: the same contracts executed on the unmodified code with
real numpy, for replaying counterexamples and searching failing inputs."""
import numpy as np


class Rejected(Exception):
    """precondition not met by the sampled input"""


class ContractViolation(Exception):
    def __init__(self, name, detail=''):
        Exception.__init__(self, name)
        self.name = name
        self.detail = detail


class FB(object):
    """fuzzy boolean array: ``y`` definitely true, ``n`` definitely false"""
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, y, n):
        self.y = np.asarray(y)
        self.n = np.asarray(n)

    def __and__(self, o):
        o = fb(o)
        return FB(self.y & o.y, self.n | o.n)

    __rand__ = __and__

    def __or__(self, o):
        o = fb(o)
        return FB(self.y | o.y, self.n & o.n)

    __ror__ = __or__

    def __invert__(self):
        return FB(self.n, self.y)

    def __getitem__(self, k):
        return FB(self.y[k], self.n[k])

    @property
    def ndim(self):
        return self.y.ndim

    @property
    def shape(self):
        return self.y.shape

    def all(self, axis=None):
        return FB(self.y.all(axis=axis), self.n.any(axis=axis))


def fb(x):
    if isinstance(x, FB):
        return x
    x = np.asarray(getattr(x, 'data', x) if not isinstance(x, np.ndarray) else x)
    if x.dtype == object and any(isinstance(e, FB) for e in x.ravel()):
        raise TypeError('array of fuzzy truth values')
    x = np.asarray(x, dtype=bool)
    return FB(x, ~x)


class ConcCtx(object):
    mode = 'conc'
    np = np

    def __init__(self, seed, trial=0, overrides=None, rows=None):
        self.rng = np.random.RandomState((int(seed) * 1000003 + trial * 7919) % (2 ** 31 - 1))
        self.trial = trial
        self.seed = seed
        self.over = overrides or {}
        self.rows = rows or {}
        self.checked = 0
        self.inputs = {}
        self.style = self.rng.rand()
        self.scale = self.rng.choice([0.3, 1., 1., 10., 300.])
        self.nonvac = 0
        self._undo = []
        np.random.seed(self.rng.randint(2 ** 31 - 1))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for d, k, v in reversed(self._undo):
            if type(d) is dict:
                d[k] = v
            else:
                setattr(d, k, v)
        self._undo = []
        return False

    def draws(self):
        """see the random numbers the code draws"""
        from . import draws
        d = draws.Draws(self)
        self._undo += draws.hook_numpy(d)
        return d

    def sky(self, lon, lat):
        import astropy.units as u
        from astropy.coordinates import SkyCoord
        return SkyCoord(np.asarray(lon) * u.rad, np.asarray(lat) * u.rad)

    @staticmethod
    def length(dim):
        return dim

    def count(self, name, lo=1, hi=6):
        n = int(self.over[name]) if name in self.over else self.rng.randint(lo, hi + 1)
        self.inputs[name] = n
        return n

    def seq(self, name, n, lo=None, hi=None, sorted=False, gen=None):
        v = self.array(name, (n,), lo, hi, gen=gen)
        return np.sort(v) if sorted else v

    def direction(self, lon, lat):
        return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], axis=-1)

    def builtin_int(self, module, upto=None):
        pass

    def patch(self, obj, name, value):
        """replace an attribute for the duration of the run"""
        self._undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def dim(self, name, nonempty=False):
        if name in self.rows:
            return self.rows[name]
        n = int(self.rng.choice([1, 2, 3, 5, 8, 0 if not nonempty else 1, 17]))
        self.inputs['#' + name] = n
        return n

    def _rec(self, name, a):
        self.inputs[name] = a
        return np.array(a) if np.ndim(a) else a

    def array(self, name, shape=(), lo=None, hi=None, strict=(False, False), kind='f', gen=None):
        shape = tuple(shape)
        if name in self.over:
            v = np.asarray(self.over[name])
            try:
                v = np.array(np.broadcast_to(v, shape))
            except ValueError:
                v = np.resize(v, shape)
            if kind == 'i':
                v = v.astype(int)
            if v.dtype.kind == 'f' and not np.all(np.isfinite(v)):
                raise Rejected()
            return self._rec(name, v if shape else v[()])
        if gen is not None:
            return self._rec(name, np.asarray(gen(self.rng, shape)) if shape else gen(self.rng, shape))
        r = self.rng
        if kind == 'i':
            l = 0 if lo is None else int(lo)
            h = l + 10 if hi is None else int(hi)
            a = r.randint(l, h + 1, size=shape)
            return self._rec(name, a if shape else int(a))
        if lo is None and hi is None:
            a = r.normal(size=shape) * self.scale
            if self.style < 0.5:
                a = np.where(r.rand(*shape) < 0.25, r.choice([0., 1., -1., 0.5], size=shape), a)
        else:
            l = lo if lo is not None else (-self.scale * 3 + min(0, hi))
            h = hi if hi is not None else (l + self.scale * 3)
            l, h = np.broadcast_arrays(np.asarray(l, dtype=float), np.asarray(h, dtype=float))
            a = l + (h - l) * r.rand(*shape)
            if self.style < 0.4:
                m = r.rand(*shape)
                if lo is not None and not strict[0]:
                    a = np.where(m < 0.15, l, a)
                if hi is not None and not strict[1]:
                    a = np.where(m > 0.85, h, a)
        a = np.asarray(a, dtype=float)
        return self._rec(name, a if shape else float(a))

    def scalar(self, name, lo=None, hi=None, strict=(False, False), kind='f', gen=None):
        return self.array(name, (), lo, hi, strict, kind, gen)

    def boolarray(self, name, shape):
        if name in self.over:
            return self._rec(name, np.array(np.broadcast_to(self.over[name], shape), dtype=bool))
        p = self.rng.choice([0.5, 0.5, 0.1, 0.9, 0., 1.])
        return self._rec(name, self.rng.rand(*shape) < p)

    def unit_vector(self, name, shape=(), n=3, hom=None):
        shape = tuple(shape)
        if name in self.over:
            a = np.array(np.broadcast_to(np.asarray(self.over[name], dtype=float), shape + (3,)))
            nn = np.linalg.norm(a, axis=-1, keepdims=True)
            a = np.where(nn > 0, a / np.where(nn > 0, nn, 1), np.array([1., 0, 0]))
        else:
            a = self.rng.normal(size=shape + (3,))
            if self.style < 0.45:
                e = np.eye(3)[self.rng.randint(3, size=shape)] * self.rng.choice([-1., 1.], size=shape + (1,))
                a = np.where(self.rng.rand(*(shape + (1,))) < 0.4, e, a)
            a = a / np.linalg.norm(a, axis=-1, keepdims=True)
        self._rec(name, a)
        if hom is not None:
            return np.concatenate([a, np.full(shape + (1,), float(hom))], -1)
        return np.array(a)

    def frame(self, name, shape=()):
        shape = tuple(shape)
        if name in self.over:
            uv = np.array(np.broadcast_to(np.asarray(self.over[name], dtype=float), shape + (2, 3)))
            u, v = uv[..., 0, :], uv[..., 1, :]
        else:
            if self.style < 0.3:
                k = self.rng.randint(3)
                u = np.broadcast_to(np.eye(3)[k], shape + (3,)) * 1.
                v = np.broadcast_to(np.eye(3)[(k + 1 + self.rng.randint(2)) % 3], shape + (3,)) * 1.
            else:
                u, v = self.rng.normal(size=shape + (3,)), self.rng.normal(size=shape + (3,))
        # a model of the solver may be degenerate after rounding: use any frame there
        with np.errstate(all='ignore'):
            un = u / np.linalg.norm(u, axis=-1, keepdims=True)
            vn = v - np.sum(un * v, axis=-1, keepdims=True) * un
            bad = ~(np.linalg.norm(vn, axis=-1, keepdims=True) > 1e-6 * (1 + np.linalg.norm(v, axis=-1, keepdims=True)))
        if np.any(bad):
            u = np.where(bad, self.rng.normal(size=shape + (3,)), u)
            v = np.where(bad, self.rng.normal(size=shape + (3,)), v)
        u = u / np.linalg.norm(u, axis=-1, keepdims=True)
        v = v - np.sum(u * v, axis=-1, keepdims=True) * u
        v = v / np.linalg.norm(v, axis=-1, keepdims=True)
        self._rec(name, np.stack([u, v], -2))
        return np.stack([np.cross(u, v), u, v], -1)

    def placement(self, name, zoom=None, shape=()):
        R = self.frame(name + '.R')
        t = self.array(name + '.t', (3,))
        if zoom is None:
            z = self.array(name + '.zoom', (3,), 0.05, 30.)
        else:
            z = np.asarray(zoom, dtype=float)
        P = np.eye(4)
        P[:3, :3] = R * z
        P[:3, 3] = t
        return P, {'R': R, 't': np.array(t), 'zoom': np.array(z)}

    @staticmethod
    def hom(a, w):
        a = np.asarray(a, dtype=float)
        return np.concatenate([a, np.full(a.shape[:-1] + (1,), float(w))], -1)

    def requires(self, cond):
        if not np.all(fb(cond).y):
            raise Rejected()

    assume = requires

    def general(self, name, fn, *argsets):
        pass

    def userfunc(self, name, lo=None, hi=None, strict=(False, False), gen=None, out=()):
        r = self.rng
        par = r.normal(size=8)
        lo_, hi_ = (-5. if lo is None else lo), (5. if hi is None else hi)
        if lo is not None and hi is None:
            hi_ = lo_ + 7.
        if hi is not None and lo is None:
            lo_ = hi_ - 7.
        flat = r.rand() < 0.2
        self.inputs['fn:' + name] = par.tolist()
        calls = []

        def f(*args, **kw):
            args = [np.asarray(getattr(a, 'value', a), dtype=float) for a in args]
            calls.append(args)
            x = par[0] + 0. * args[0]
            for k, a in enumerate(args):
                x = x + (0. if flat else 1.) * par[1 + k] * a
            with np.errstate(all='ignore'):
                return lo_ + (hi_ - lo_) * (0.5 + 0.499 * np.sin(x))
        f.calls = calls
        return f

    def table(self, dim, cols, meta=None):
        from astropy.table import Table
        t = Table({k: np.array(v) for k, v in cols.items()})
        if meta:
            t.meta.update(meta)
        return t

    @staticmethod
    def column(t, name):
        return np.array(t[name].data)

    def stub(self, module, name, fn):
        pass

    def lemma(self, name, cond):
        self.ensure('lemma: ' + name, cond)

    def ensure(self, name, cond):
        c = fb(cond)
        self.checked += 1
        if np.any(c.n):
            idx = np.argwhere(np.atleast_1d(c.n))[0].tolist()
            raise ContractViolation(name, 'postcondition "%s" false at index %s' % (name, idx))
        if np.any(c.y):
            self.nonvac += 1

    # comparisons ---------------------------------------------------------
    def _tol(self, a, b, tol):
        t = 1e-7 if tol is None else tol
        with np.errstate(all='ignore'):
            return t * (1 + np.abs(a) + np.abs(b))

    @staticmethod
    def _num(x):
        return np.asarray(getattr(x, 'value', x), dtype=float) if not isinstance(x, np.ndarray) else np.asarray(x)

    def eq(self, a, b, tol=None, scale=None):
        a, b = self._num(a), self._num(b)
        if a.dtype == bool and b.dtype == bool:
            return fb(a == b)
        a, b = a.astype(float), b.astype(float)
        with np.errstate(all='ignore'):
            t = self._tol(a, b, tol) * (1 if scale is None else scale)
            ok = (np.abs(a - b) <= t) | (a == b)
        return FB(ok, ~ok)

    def same(self, a, b, tol=None):
        a, b = self._num(a), self._num(b)
        c = self.eq(a, b, tol)
        if a.dtype.kind == 'f' and b.dtype.kind == 'f':
            nn = np.isnan(a) & np.isnan(b)
            c = FB(c.y | nn, c.n & ~nn)
        return c

    def le(self, a, b, tol=None):
        a, b = self._num(a).astype(float), self._num(b).astype(float)
        with np.errstate(all='ignore'):
            t = self._tol(a, b, tol)
            t = np.where(np.isfinite(t), t, 0)
            return FB(a <= b - t, ~(a <= b + t))

    def lt(self, a, b, tol=None):
        return self.le(a, b, tol)

    def cond(self, x):
        return fb(x)

    def all(self, *cs):
        r = None
        for c in cs:
            r = fb(c) if r is None else (r & c)
        return r

    def any(self, *cs):
        r = None
        for c in cs:
            r = fb(c) if r is None else (r | c)
        return r

    def alltrue(self, c, axis=-1):
        return fb(c).all(axis=axis)

    def implies(self, a, b):
        return (~fb(a)) | b

    def iff(self, a, b):
        a, b = fb(a), fb(b)
        return (a & b) | (~a & ~b)

    def isnan(self, a):
        return fb(np.isnan(self._num(a).astype(float)))

    def finite(self, a):
        return fb(np.isfinite(self._num(a).astype(float)))

    def same_shape(self, name, a, b):
        ok = np.shape(a) == np.shape(b)
        self.ensure(name, ok)
        return ok

    def shape_is(self, name, a, axes):
        ok = tuple(np.shape(a)) == tuple(axes)
        self.ensure(name, ok)
        return ok

    def raises(self, name, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            self.ensure(name, True)
            return
        self.ensure(name, False)

    def choose(self, name, options):
        k = 'choice:' + name
        if k in self.over:
            i = int(self.over[k]) % len(options)
        else:
            i = int(self.rng.randint(len(options)))
        self.inputs[k] = i
        return options[i]
