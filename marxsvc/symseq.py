"""One-dimensional tables of unknown length with arbitrary content.

A sequence is a length (a term) and a function from index terms to terms.  Facts
that hold for every index (bounds, sums, results of np.all) are schemas that are
instantiated for every index the code or the contract looks at; sums, orderings
and searches are uninterpreted functions with the contract of the numpy function
as schema.  No length is fixed anywhere."""
import numpy as np
from . import npshim, symarr as sa, terms as tm
from .symarr import SymArray, asym, elementwise
from .terms import Unsupported, ONE, ZERO, T

_n = [7000000]


def _ctx():
    return npshim.ctx()


def _state():
    c = _ctx()
    if not hasattr(c, 'seq_idx'):
        c.seq_idx, c.seq_schema, c.searches, c.argsorts = [], [], [], []
        c.seq_known, c.seq_done, c.seq_local = {}, {}, None
    return c


def _key(i):
    return tuple(x for x in i.p.ravel()) + tuple(i.axes)


LEVELS = [0]    # instances may introduce new indices; how often those are instantiated again
_level = [0]


def register(i):
    """the index i (array of numbers) is looked at"""
    c = _state()
    lv = _level[0]
    k = _key(i)
    if lv > LEVELS[0] or c.seq_known.get(k, 99) <= lv:
        return
    new = k not in c.seq_known
    c.seq_known[k] = lv
    if new:
        c.seq_idx.append(i)
    for s in list(c.seq_schema):
        _instance(c, s, i, lv, k)


def _instance(c, s, i, lv, k):
    if c.seq_done.get((s, k), 99) <= lv:
        return
    c.seq_done[(s, k)] = lv
    _level[0] = lv + 1
    try:
        t = s(i)
    finally:
        _level[0] = lv
    if c.seq_local is not None:
        c.seq_local.append(t)
    else:
        c.requires(t)


def schema(s):
    """s(i) holds for every index i"""
    c = _state()
    c.seq_schema.append(s)
    for i in list(c.seq_idx):
        k = _key(i)
        _instance(c, s, i, c.seq_known[k], k)


def _uf(kind='R'):
    _n[0] += 1
    fid = tm.const(_n[0])
    return lambda i: elementwise(lambda t: tm.mk('uf', (fid, tm.R(t)), 'R'), [i], 'f')


def inside(i, n):
    return (asym(0) <= i) & (i < asym(n))


def integral(v):
    """an index is 0 or at least 1, and so on; enough integrality for index arithmetic"""
    return (v <= asym(0)) | (asym(1) <= v)


def for_every_index(f):
    """is f(i) true for an arbitrary index i?  The facts about that index are
    used for this question only."""
    c = _state()
    if c.seq_local is not None:
        return False
    keep = list(c.seq_idx), dict(c.seq_known), dict(c.seq_done)
    c.seq_local = []
    LEVELS[0] = 1
    try:
        goal = f(asym_var('anyindex'))
        facts = [sa.tobool(x) for t in c.seq_local for x in t.p.ravel()]
        g = sa.tobool(goal.p[()])
    finally:
        c.seq_idx, c.seq_known, c.seq_done = keep
        c.seq_local = None
        LEVELS[0] = 0
    if g is tm.TRUE:
        return True
    return bool(c.prover.prove(c.hyps() + facts, g))


class SymSeq(object):
    __array_ufunc__ = None
    __hash__ = None
    ndim = 1

    def __init__(self, n, fn, kind='f'):
        self.n, self.fn, self.kind = n, fn, kind

    # the length is a term
    def _symlen_(self):
        return SymArray(sa._obj(self.n), (), 'i')

    @property
    def shape(self):
        return (self._symlen_(),)

    @property
    def size(self):
        return self._symlen_()

    def at(self, i):
        i = asym(i)
        register(i)
        return self.fn(i)

    def __len__(self):
        raise Unsupported('len() of a sequence outside of the code under verification')

    def __array__(self, *a, **k):
        raise Unsupported('concrete array of a symbolic sequence')

    def copy(self):
        return self

    def __getitem__(self, k):
        n = self._symlen_()
        if isinstance(k, SymSeq):
            if k.kind == 'b':
                raise Unsupported('selection from a sequence')

            def f(i):
                j = k.at(i)
                return self.at(j)
            return SymSeq(k.n, f, self.kind)
        if isinstance(k, slice):
            if k.step not in (None, 1) or not isinstance(k.start, (int, type(None))) or not isinstance(k.stop, (int, type(None))):
                raise Unsupported('slice of a sequence')
            a = k.start or 0
            if a < 0 or (k.stop is not None and k.stop >= 0):
                raise Unsupported('slice of a sequence')
            m = tm.t_add(self.n, tm.const(-a + (k.stop or 0)))
            return SymSeq(m, lambda i: self.at(i + a) if a else self.at(i), self.kind)
        if isinstance(k, (int, np.integer)):
            i = asym(int(k)) if k >= 0 else n + int(k)
            c = _ctx()
            c.obligate(sa.tobool(inside(i, self.n).p[()]), 'index inside the sequence', exc=IndexError)
            return self.at(i)
        k = asym(k)
        if not isinstance(k, SymArray) or k.kind == 'b':
            raise Unsupported('index of a sequence')
        k = k + 0
        neg = k < 0
        i = npshim.f_where(neg, k + n, k) if not all(tm.b_not(x) is tm.TRUE for x in neg.p.ravel()) else k
        c = _ctx()
        dims = [d for d in i.axes if isinstance(d, sa.Dim)]
        for d in dims:
            c.push_dims([d])
        try:
            for x, y in zip(neg.p.ravel(), k.p.ravel()):
                if c.quick(tm.b_not(sa.tobool(x))):
                    i = k
                for t in inside(k, self.n).p.ravel() if i is k else inside(i, self.n).p.ravel():
                    c.obligate(sa.tobool(t), 'index inside the sequence', exc=IndexError)
        finally:
            for d in dims:
                c.pop_dims(1)
        return self.at(i)

    def __setitem__(self, k, v):
        raise Unsupported('assignment to a part of a sequence')

    # elementwise operations
    def _op(self, o, f, kind=None):
        if isinstance(o, SymSeq):
            same_length(self, o)
            return SymSeq(self.n, lambda i: f(self.at(i), o.at(i)), kind or 'f')
        if hasattr(o, 'unit'):
            return NotImplemented
        o = asym(o)
        if o is NotImplemented or o.ndim:
            raise Unsupported('sequence with an array')
        return SymSeq(self.n, lambda i: f(self.at(i), o), kind or 'f')

    def all(self):
        """uninterpreted truth value b with b => element i, and a witness otherwise"""
        if for_every_index(lambda i: ~inside(i, self.n) | ~integral(i) | self.at(i)):
            return SymArray(sa._obj(tm.TRUE), (), 'b')
        b = tm.var(tm.fresh_name('forall'), None, (), 'B')
        B = SymArray(sa._obj(b), (), 'b')
        schema(lambda i: ~B | ~inside(i, self.n) | self.fn(i))
        w = asym_var('witness')
        _ctx().requires(B | (inside(w, self.n) & ~self.at(w)))
        return B

    def any(self):
        return ~(~self).all()

    def cumsum(self):
        if not hasattr(self, '_cumsum'):
            self._cumsum = self._new_cumsum()
        return self._cumsum

    def _new_cumsum(self):
        C = _uf()
        schema(lambda i: ~inside(i, self.n) | ((i < 1) & ((C(i) - self.fn(i)) == 0)) | ((asym(1) <= i) & ((C(i) - C(i - 1) - self.fn(i)) == 0)))
        return SymSeq(self.n, C)

    def sum(self):
        return self.cumsum()[-1]

    def argsort(self):
        s = _uf()
        schema(lambda i: ~inside(i, self.n) | (inside(s(i), self.n) & integral(s(i))))
        r = SymSeq(self.n, s, 'i')
        r.permutation = True
        _state().argsorts.append(r)
        return r


def _mkop(name, kind=None, swap=False):
    import operator as op
    f = getattr(op, name)
    if swap:
        return lambda self, o: self._op(o, lambda a, b: f(b, a), kind)
    return lambda self, o: self._op(o, f, kind)


for _nm in ('add', 'sub', 'mul', 'truediv', 'pow'):
    setattr(SymSeq, '__%s__' % _nm, _mkop(_nm))
    setattr(SymSeq, '__r%s__' % _nm, _mkop(_nm, swap=True))
for _nm in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(SymSeq, '__%s__' % _nm, _mkop(_nm, 'b'))
SymSeq.__and__ = _mkop('and_', 'b')
SymSeq.__or__ = _mkop('or_', 'b')
SymSeq.__invert__ = lambda s: SymSeq(s.n, lambda i: ~s.at(i), 'b')
SymSeq.__neg__ = lambda s: SymSeq(s.n, lambda i: -s.at(i))
SymSeq.__abs__ = lambda s: SymSeq(s.n, lambda i: abs(s.at(i)))


def asym_var(name):
    return SymArray(sa._obj(tm.var(tm.fresh_name(name), None, (), 'R')), (), 'i')


def same_length(a, b):
    d = tm.t_sub(a.n, b.n)
    if d is not ZERO:
        _ctx().obligate(tm.t_eq(d, ZERO), 'sequences have the same length', exc=ValueError)


def searchsorted(a, v, side='left', sorter=None):
    if sorter is not None:
        raise Unsupported('searchsorted with sorter')
    v = asym(v)
    c = _state()
    # precondition: the sequence is sorted.  Two arbitrary neighbours:
    if not for_every_index(lambda g: ~(inside(g, a.n) & inside(g + 1, a.n)) | ~integral(g) | (a.at(g) <= a.at(g + 1))):
        c.ensure('safety: searchsorted: sequence is sorted', asym(False))
    k = npshim.fresh_array(tm.fresh_name('found'), v.axes, 'f')
    n = asym(a.n)
    c.requires((asym(0) <= k) & (k <= n) & integral(k) & ((k == n) | (k <= n - 1)))
    below, at = a.at(k - 1), a.at(k)
    if side == 'right':
        c.requires((k < 1) | (below <= v))
        c.requires((n <= k) | (v < at))
    else:
        c.requires((k < 1) | (below < v))
        c.requires((n <= k) | (v <= at))
    k.kind = 'i'
    c.searches.append({'sequence': a, 'value': v, 'index': k, 'side': side})
    return k


def handle(np_, name, a, k):
    x = a[0] if a else None
    if name in ('asarray', 'array', 'asanyarray', 'atleast_1d', 'ascontiguousarray', 'copy') and isinstance(x, SymSeq):
        return x
    if name == 'diff' and isinstance(x, SymSeq) and len(a) == 1 and not k:
        return SymSeq(tm.t_sub(x.n, ONE), lambda i: x.at(i + 1) - x.at(i))
    if name == 'ediff1d' or name == 'diff' and set(k) == {'prepend'}:
        p = asym(k['prepend']).reshape(())
        return SymSeq(x.n, lambda i: npshim.f_where(i < 1, x.at(i) - p, x.at(i) - x.at(i - 1)))
    if name in ('hstack', 'concatenate', 'append', 'insert'):
        parts = list(x) if name in ('hstack', 'concatenate') else [x, a[1]]
        if name == 'insert':
            if not (isinstance(x, SymSeq) and a[1] == 0 and len(a) == 3):
                raise Unsupported('insert into a sequence')
            parts = [np.atleast_1d(a[2]), x]
        if len(parts) == 2 and not isinstance(parts[0], SymSeq) and isinstance(parts[1], SymSeq):
            first, s = asym(parts[0]), parts[1]
            if first.ndim == 0:
                first = first.reshape((1,))
            m = first.axes[0]
            if not isinstance(m, int):
                raise Unsupported('stack of a sequence')

            def f(i):
                r = s.at(i - m)
                for j in range(m - 1, -1, -1):
                    r = npshim.f_where(i < j + 1, first[j], r)
                return r
            return SymSeq(tm.t_add(s.n, tm.const(m)), f)
        raise Unsupported('stack of sequences')
    if name in ('all', 'any', 'sum', 'cumsum', 'argsort') and isinstance(x, SymSeq):
        if k.get('kind') is not None:
            k = {q: w for q, w in k.items() if q != 'kind'}
        if k or len(a) > 1:
            raise Unsupported('%s of a sequence with options' % name)
        return getattr(x, name)()
    if name == 'searchsorted':
        return searchsorted(*a, **k)
    if name == 'digitize' and isinstance(a[1], SymSeq) and not isinstance(x, SymSeq):
        right = k.get('right', a[2] if len(a) > 2 else False)
        return searchsorted(a[1], x, side='left' if right else 'right')
    import operator as op
    two = {'add': op.add, 'subtract': op.sub, 'multiply': op.mul, 'divide': op.truediv, 'true_divide': op.truediv, 'less': op.lt, 'less_equal': op.le,
           'greater': op.gt, 'greater_equal': op.ge, 'logical_and': op.and_, 'logical_or': op.or_}
    if name in two and len(a) == 2:
        return two[name](a[0], a[1])
    if name in ('take',) and isinstance(x, SymSeq):
        return x[a[1]]
    if name in ('absolute', 'abs', 'fabs'):
        return abs(x)
    if name in ('shape',):
        return x.shape
    if name == 'ndim':
        return 1
    raise Unsupported('numpy.%s of a sequence of unknown length' % name)


def has_seq(x, depth=0):
    if isinstance(x, SymSeq):
        return True
    if isinstance(x, (list, tuple)) and depth < 3:
        return any(has_seq(y, depth + 1) for y in x)
    return False
