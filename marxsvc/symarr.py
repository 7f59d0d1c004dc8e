"""Symbolic numpy arrays.

``SymArray`` = numpy object array of terms (the *payload*) + axis tags.  A tag
is an ``int`` (axis of that concrete length) or a ``Dim`` (axis of arbitrary,
unbounded length; the payload has length 1 there and holds the element at the
generic row ``dim.row``).  Views share payload memory, so aliasing behaves as in
numpy.  A boolean-mask selection of a ``Dim`` axis gives the sub-``Dim`` of the
rows where the mask holds (element still indexed by the base row).
"""
import numpy as np
from fractions import Fraction
from astropy.units import UnitBase as _UnitBase, Quantity as _Quantity
from . import terms as tm
from .terms import T, Val, Unsupported, lift, TRUE, FALSE, ZERO, ONE

CUR = [None]     # current symbolic context


def ctx():
    return CUR[0]


class Dim(object):
    """Axis of symbolic length.  ``conds``: conditions (terms over row)."""
    _cache = {}
    __slots__ = ('base', 'row', 'conds', 'key')

    def __new__(cls, base, conds=()):
        conds = frozenset(conds)
        k = (base, conds)
        d = cls._cache.get(k)
        if d is None:
            d = object.__new__(cls)
            d.base = base
            d.row = tm.rowvar(base)
            d.conds = conds
            d.key = k
            cls._cache[k] = d
        return d

    def sub(self, cond):
        cs = set(self.conds)
        for c in (cond.args if cond.op == 'and' else (cond,)):
            if c is TRUE:
                continue
            cs.add(c)
        c = tm.b_and(*cs)
        if c is FALSE:
            cs = {FALSE}
        else:
            cs = set(c.args) if c.op == 'and' else ({c} if c is not TRUE else set())
        return Dim(self.base, cs)

    def cond(self):
        return tm.b_and(*self.conds)

    def card(self):
        t = tm.mk('card', (self.base, tuple(sorted(self.conds, key=lambda t: t.id))), 'R')
        CARD[t] = self
        return t

    def __repr__(self):
        return 'Dim(%s%s)' % (self.base, '|%d' % len(self.conds) if self.conds else '')


CARD = {}


def same_dim(a, b):
    if a is b:
        return True
    if a.base != b.base:
        return False
    c = ctx()
    if c is not None:
        return c.dims_equal(a, b)
    return False


class ShapeError(Exception):
    """Real numpy would raise for these shapes (for some length)."""


def _obj(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def kind_of_number(x):
    if isinstance(x, (bool, np.bool_)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    return 'f'


class SymArray(object):
    __array_priority__ = 1000
    idspace = None      # set for index arrays from nonzero/where: Dim indexed

    def __init__(self, p, axes, kind='f'):
        self.p = p
        self.axes = tuple(axes)
        self.kind = kind

    # ------------------------------------------------------------- basics
    @property
    def shape(self):
        return tuple(a if isinstance(a, int) else dimlen(a) for a in self.axes)

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def size(self):
        r = 1
        for a in self.shape:
            r = a * r
        return r

    @property
    def T(self):
        return SymArray(self.p.T, self.axes[::-1], self.kind)

    @property
    def dtype(self):
        return np.dtype({'b': bool, 'i': int, 'f': float, 'O': object}[self.kind])

    @property
    def data(self):
        return self

    @property
    def value(self):
        return self

    def view(self, *a):
        return self

    def __array__(self, *a, **k):
        try:
            return concrete(self)
        except Unsupported:
            raise Unsupported('implicit conversion of symbolic array to ndarray')

    def __len__(self):
        if not self.axes:
            raise TypeError('len() of unsized object')
        if isinstance(self.axes[0], int):
            return self.axes[0]
        raise Unsupported('len of symbolic dimension')

    def __iter__(self):
        if not self.axes:
            raise TypeError('iteration over a 0-d array')
        if isinstance(self.axes[0], int):
            return iter([self[i] for i in range(self.axes[0])])
        raise Unsupported('iteration over symbolic dimension')

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return 'SymArray(%s,%s,%r)' % (self.axes, self.kind, self.p.tolist())

    def scalar(self):
        if self.p.size != 1 or any(not isinstance(a, int) for a in self.axes):
            raise Unsupported('scalar() of array with axes %r' % (self.axes,))
        return self.p.reshape(())[()]

    def __bool__(self):
        if self.p.size == 0:
            return False
        if self.p.size != 1 or self.ndim and any(not isinstance(a, int) for a in self.axes):
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        t = self.p.reshape(())[()]
        return ctx().decide(tobool(t))

    def __index__(self):
        t = self.scalar()
        if isinstance(t, T) and t.op == 'const' and tm.cval(t).denominator == 1:
            return int(tm.cval(t))
        raise Unsupported('symbolic value used as a python index')

    def __int__(self):
        t = self.scalar()
        if isinstance(t, T) and t.op == 'const':
            return int(tm.cval(t))
        raise Unsupported('int() of symbolic value')

    def __float__(self):
        t = self.scalar()
        if isinstance(t, T) and t.op == 'const':
            return float(tm.cval(t))
        raise Unsupported('float() of symbolic value')

    def __format__(self, spec):
        return '<sym>'

    def item(self):
        return SymArray(_obj(self.scalar()), (), self.kind)

    # --------------------------------------------------------- arithmetic
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        return npshim.array_function(func, args, kwargs)

    def _bin(self, o, f, kind=None, swap=False):
        if isinstance(o, (_UnitBase, _Quantity)) or type(o).__name__ == 'SymQ':
            return self._qbin(o, f, swap)
        o2 = asym(o)
        if o2 is NotImplemented:
            return NotImplemented
        return elementwise(f, [o2, self] if swap else [self, o2], kind)

    def _qbin(self, o, f, swap):
        from . import symq
        q = symq.SymQ(*symq.split(self))
        if isinstance(o, _UnitBase) and f not in (tm.v_mul, tm.v_div):
            return NotImplemented
        if f is tm.v_mul:
            return q.__rmul__(o) if swap else q * o
        if f is tm.v_div:
            return q.__rtruediv__(o) if swap else q / o
        if isinstance(o, _Quantity):
            o = symq.SymQ(*symq.split(o))
        if not q.unit.is_equivalent(o.unit):
            return o._same(self, (lambda a, b: elementwise(f, [b, a] if not swap else [a, b])))
        r = q._same(o, (lambda a, b: elementwise(f, [b, a] if swap else [a, b])))
        return r if r.kind == 'b' else symq.SymQ(r, q.unit)

    def __add__(self, o):
        return self._bin(o, tm.v_add)

    def __radd__(self, o):
        return self._bin(o, tm.v_add, swap=True)

    def __sub__(self, o):
        return self._bin(o, v_sub)

    def __rsub__(self, o):
        return self._bin(o, v_sub, swap=True)

    def __mul__(self, o):
        return self._bin(o, tm.v_mul)

    def __rmul__(self, o):
        return self._bin(o, tm.v_mul, swap=True)

    def __truediv__(self, o):
        return self._bin(o, tm.v_div, 'f')

    def __rtruediv__(self, o):
        return self._bin(o, tm.v_div, 'f', swap=True)

    def __mod__(self, o):
        return self._bin(o, tm.v_mod)

    def __rmod__(self, o):
        return self._bin(o, tm.v_mod, swap=True)

    def __floordiv__(self, o):
        return self._bin(o, v_floordiv)

    def __pow__(self, o):
        return self._bin(o, tm.v_pow)

    def __rpow__(self, o):
        return self._bin(o, tm.v_pow, swap=True)

    def __neg__(self):
        return elementwise(tm.v_neg, [self])

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return elementwise(tm.v_abs, [self])

    def __lt__(self, o):
        return self._bin(o, tm.v_lt, 'b')

    def __le__(self, o):
        return self._bin(o, tm.v_le, 'b')

    def __gt__(self, o):
        return self._bin(o, lambda a, b: tm.v_lt(b, a), 'b')

    def __ge__(self, o):
        return self._bin(o, lambda a, b: tm.v_le(b, a), 'b')

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._bin(o, tm.v_eq, 'b')

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._bin(o, v_ne, 'b')

    def __and__(self, o):
        return self._bin(o, lambda a, b: tm.b_and(tobool(a), tobool(b)), 'b')

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: tm.b_or(tobool(a), tobool(b)), 'b')

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: tm.b_not(tm.b_iff(tobool(a), tobool(b))), 'b')

    def __invert__(self):
        if self.kind != 'b':
            if self.kind == 'i':
                return elementwise(lambda a: tm.v_add(tm.v_neg(a), tm.MONE), [self])
            raise TypeError("ufunc 'invert' not supported for the input types")
        return elementwise(lambda a: tm.b_not(tobool(a)), [self], 'b')

    def _inplace(self, o, f):
        r = self._bin(o, f)
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._inplace(o, tm.v_add)

    def __isub__(self, o):
        return self._inplace(o, v_sub)

    def __imul__(self, o):
        return self._inplace(o, tm.v_mul)

    def __itruediv__(self, o):
        return self._inplace(o, tm.v_div)

    def __imod__(self, o):
        return self._inplace(o, tm.v_mod)

    def __iand__(self, o):
        self[...] = self & o
        return self

    def __ior__(self, o):
        self[...] = self | o
        return self

    def __matmul__(self, o):
        return np.matmul(self, o)

    def __rmatmul__(self, o):
        return np.matmul(o, self)

    # --------------------------------------------------------------- methods
    def copy(self, *a, **k):
        r = SymArray(self.p.copy(), self.axes, self.kind)
        r.idspace = self.idspace
        return r

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, *a, **k):
        k = np.dtype(dt).kind if not isinstance(dt, str) or dt not in ('b', 'i', 'f') else dt
        k = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'O': self.kind}.get(k)
        if k is None:
            raise Unsupported('astype')
        return SymArray(convert(self.p.copy(), self.kind, k), self.axes, k)

    def sum(self, axis=None, **k):
        return np.sum(self, axis=axis, **k)

    def prod(self, axis=None, **k):
        return np.prod(self, axis=axis, **k)

    def mean(self, axis=None, **k):
        return np.mean(self, axis=axis, **k)

    def cumsum(self, axis=None, **k):
        return np.cumsum(self, axis=axis, **k)

    def min(self, axis=None, **k):
        return np.min(self, axis=axis, **k)

    def max(self, axis=None, **k):
        return np.max(self, axis=axis, **k)

    def any(self, axis=None, **k):
        return np.any(self, axis=axis, **k)

    def all(self, axis=None, **k):
        return np.all(self, axis=axis, **k)

    def argmax(self, axis=None, **k):
        return np.argmax(self, axis=axis, **k)

    def argmin(self, axis=None, **k):
        return np.argmin(self, axis=axis, **k)

    def dot(self, o):
        return np.dot(self, o)

    def nonzero(self):
        return np.nonzero(self)

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return np.reshape(self, shape)

    def flatten(self, *a):
        return np.reshape(self, (-1,)).copy()

    def ravel(self, *a):
        return np.reshape(self, (-1,))

    def squeeze(self, axis=None):
        return np.squeeze(self, axis)

    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        return np.transpose(self, ax or None)

    def swapaxes(self, a, b):
        return np.swapaxes(self, a, b)

    def clip(self, a=None, b=None, **k):
        return np.clip(self, a, b)

    def round(self, *a, **k):
        return np.round(self, *a)

    def tolist(self):
        if self.ndim == 0:
            return self.copy()
        return [x.tolist() for x in self]

    def fill(self, v):
        self[...] = v

    # -------------------------------------------------------------- indexing
    def _pointwise(self, key):
        """a[i, j] with one array of integers for each axis, all axes of known length"""
        ks = [asym(k) for k in key]
        n = ks[0].axes[0]
        if not isinstance(n, int) or any(k.axes != (n,) for k in ks):
            raise Unsupported('several advanced indices')
        out = np.empty((n,), dtype=object)
        for m in range(n):
            r = None
            for pos in np.ndindex(*self.p.shape):
                c = tm.TRUE
                for k, q in zip(ks, pos):
                    c = tm.b_and(c, tm.t_eq(tm.R(k.p[m]), tm.const(q)))
                if c is tm.FALSE:
                    continue
                r = tm.tosortR(self.p[pos]) if r is None or c is tm.TRUE else tm.v_ite(c, tm.tosortR(self.p[pos]), r)
                if c is tm.TRUE:
                    break
            if r is None:
                raise IndexError('index out of bounds')
            for k, a in zip(ks, self.axes):
                ctx().obligate(tm.b_and(tm.t_le(tm.ZERO, tm.R(k.p[m])), tm.t_lt(tm.R(k.p[m]), tm.const(a))), 'index within length', exc=IndexError)
            out[m] = r
        return SymArray(out, (n,), self.kind)

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == self.ndim > 1 and self.kind != 'b' and all(isinstance(a, int) for a in self.axes) and \
                all(isinstance(k, (SymArray, np.ndarray)) and k.ndim == 1 for k in key) and any(isinstance(k, SymArray) for k in key) and \
                all((k.kind if isinstance(k, SymArray) else k.dtype.kind) == 'i' for k in key):
            return self._pointwise(key)
        view, adv = self._resolve(key)
        if adv is None:
            return view
        ax, sel, pos, shp = adv
        return _select(view, ax, sel)

    def _resolve(self, key):
        """-> (basic view SymArray, None | (axis, selector, ...))"""
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        # normalise
        for n, k in enumerate(key):
            if isinstance(k, SymArray):
                if k.ndim == 0 and k.kind == 'b':
                    raise Unsupported('0-d boolean index')
                if k.ndim == 0 and not isinstance(k.p[()], Val) and k.p[()].op == 'const':
                    key[n] = int(k)
                elif all(isinstance(a, int) for a in k.axes) and k.kind == 'b':
                    # concrete-shape symbolic mask: decide entry by entry
                    flat = [ctx().decide(tobool(x)) for x in k.p.ravel()]
                    key[n] = np.array(flat, dtype=bool).reshape(k.p.shape)
                elif all(isinstance(a, int) for a in k.axes) and allconst(k):
                    key[n] = concrete(k).astype(int)
            elif hasattr(k, '_sym_index_'):
                key[n] = k._sym_index_()
        nidx = sum((k.ndim if (isinstance(k, SymArray) and k.kind == 'b') or
                    (isinstance(k, np.ndarray) and k.dtype == bool) else 1)
                   for k in key if k is not None and k is not Ellipsis)
        if Ellipsis in [k if k is Ellipsis else None for k in key]:
            i = [k is Ellipsis for k in key].index(True)
            key[i:i + 1] = [slice(None)] * (self.ndim - nidx)
        else:
            key += [slice(None)] * (self.ndim - nidx)
        if sum(1 for k in key if k is not None and k is not Ellipsis) > self.ndim:
            raise IndexError('too many indices for array')
        basic = []
        newaxes = []
        src = 0
        adv = None
        advseen_slice_between = False
        has_int = False
        for k in key:
            if k is None:
                basic.append(None)
                newaxes.append(1)
                continue
            a = self.axes[src]
            if isinstance(k, SymArray):
                if adv is not None:
                    raise Unsupported('two symbolic advanced indices')
                if k.kind == 'b' and k.ndim == 2:
                    adv = (len(newaxes), k)
                    basic += [slice(None), slice(None)]
                    newaxes += [self.axes[src], self.axes[src + 1]]
                    src += 2
                    continue
                adv = (len(newaxes), k)
                basic.append(slice(None))
                newaxes.append(a)
            elif isinstance(k, slice):
                if isinstance(a, int):
                    k = slice(*[None if x is None else int(x) for x in (k.start, k.stop, k.step)])
                    basic.append(k)
                    newaxes.append(len(range(*k.indices(a))))
                else:
                    if k == slice(None):
                        basic.append(k)
                        newaxes.append(a)
                    else:
                        raise Unsupported('slice of symbolic dimension')
            elif isinstance(k, (int, np.integer)):
                if isinstance(a, int):
                    if not -a <= k < a:
                        raise IndexError('index %d is out of bounds for axis with size %d' % (k, a))
                    basic.append(int(k))
                else:
                    return self._rowindex(key, src, int(k))
            elif isinstance(k, (list, np.ndarray)):
                k = np.asarray(k)
                if k.size == 0:
                    k = k.astype(int)
                if not isinstance(a, int):
                    raise Unsupported('concrete index array on symbolic dimension')
                basic.append(k)
                newaxes.append(None)
            else:
                raise Unsupported('index %r' % (k,))
            src += 1
        p = self.p[tuple(basic)]
        if None in newaxes:
            # concrete advanced indexing: recompute the tags
            tags = []
            tagp = np.empty(self.p.shape, dtype=object)
            if adv is not None:
                raise Unsupported('mixed advanced indices')
            # numpy result shape; Dim axes have length one and keep order
            dims = [a for a in newaxes if isinstance(a, Dim)]
            if len(dims) > 1:
                raise Unsupported('advanced index with several symbolic axes')
            if not dims:
                return SymArray(p, p.shape, self.kind), None
            # find where the Dim axis ended up: mark with a longer axis
            di = [i for i, a in enumerate(self.axes) if isinstance(a, Dim)][0]
            probe = np.empty([x if i != di else 2 for i, x in enumerate(self.p.shape)])
            s1 = probe[tuple(basic)].shape
            ax = [(dims[0] if (s1[i] == 2 and p.shape[i] == 1) else p.shape[i]) for i in range(p.ndim)]
            return SymArray(p, ax, self.kind), None
        v = SymArray(p, newaxes, self.kind) if isinstance(p, np.ndarray) else SymArray(_obj(p), (), self.kind)
        v.idspace = self.idspace
        if adv is None:
            return v, None
        return v, (adv[0], adv[1], None, None)

    def _rowindex(self, key, axis, k):
        d = self.axes[axis]
        if d.conds or k != 0:
            raise Unsupported('integer index on symbolic dimension')
        r0 = tm.mk('row', (d.base + '#0',), 'I')
        ctx().note_row(r0, d)
        ctx().obligate(tm.t_le(ONE, d.card()), 'index 0 within length', exc=IndexError)
        p = np.empty(self.p.shape, dtype=object)
        m = {}
        for i, x in np.ndenumerate(self.p):
            p[i] = tm.subst_row(x, {d.row: r0}, m)
        s = SymArray(p, self.axes[:axis] + (1,) + self.axes[axis + 1:], self.kind)
        key = list(key)
        j = 0
        for n, kk in enumerate(key):
            if kk is None:
                continue
            if j == axis:
                key[n] = 0
                break
            j += 1
        v, adv = s._resolve(tuple(key))
        return v, adv

    def __setitem__(self, key, val):
        v = asym(val)
        if v is NotImplemented:
            raise Unsupported('assignment of %r' % type(val))
        # element (0-d) keys need a true view
        view, adv = self._resolve_w(key)
        if adv is None:
            _assign(view, v, None)
        else:
            ax, sel = adv[0], adv[1]
            _assign_sel(view, ax, sel, v)

    def _resolve_w(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        view, adv = self._resolve(key)
        if view.p.base is None and view.p is not self.p or not np.shares_memory_obj(view.p, self.p) \
                if False else False:
            pass
        # when all keys are ints numpy returns an element, so index with ranges
        if adv is None and view.ndim == 0:
            ks = []
            src = 0
            for k in key:
                if k is Ellipsis:
                    ks.append(k)
                    continue
                if isinstance(k, SymArray):
                    k = int(k)
                if isinstance(k, (int, np.integer)):
                    ks.append(int(k))
                else:
                    ks.append(k)
            return ('elem', self, tuple(ks)), None
        # concrete advanced keys give copies
        if any(isinstance(k, (list, np.ndarray)) for k in key) or \
                any(isinstance(k, SymArray) and adv is None and k.ndim > 0 for k in key):
            return ('fancy', self, key, view), None
        return view, adv


def v_sub(a, b):
    return tm.v_add(a, tm.v_neg(b))


def v_ne(a, b):
    return tm.b_not(tm.v_eq(a, b))


def v_floordiv(a, b):
    q = tm.v_div(a, b)
    if not isinstance(q, T):
        raise Unsupported('floor division')
    return tm.t_unary('floor', q)


def tobool(t):
    if isinstance(t, Val):
        return tm.b_or(t.nan, t.inf, tm.b_not(tm.t_eq(t.r, ZERO)))
    if t.sort == 'B':
        return t
    return tm.b_not(tm.t_eq(t, ZERO))


def dimlen(d):
    return SymArray(_obj(d.card()), (), 'i')


def todim(x):
    """shape entry -> int or Dim"""
    if isinstance(x, SymArray):
        t = x.scalar()
        if isinstance(t, T) and t.op == 'const':
            return int(tm.cval(t))
        if isinstance(t, T) and t.op == 'card':
            return CARD[t]
        raise Unsupported('symbolic shape expression')
    if isinstance(x, Dim):
        return x
    return int(x)


def toshape(s):
    if isinstance(s, (tuple, list)):
        return tuple(todim(x) for x in s)
    return (todim(s),)


def pshape(axes):
    return tuple(a if isinstance(a, int) else 1 for a in axes)


def full(axes, term, kind):
    p = np.empty(pshape(axes), dtype=object)
    p[...] = term
    return SymArray(p, axes, kind)


_lift_u = np.frompyfunc(lift, 1, 1)


def asym(x):
    """anything numeric -> SymArray"""
    if isinstance(x, SymArray):
        return x
    if hasattr(x, '_to_sym'):
        return x._to_sym()
    if isinstance(x, (T, Val)):
        return SymArray(_obj(x), (), 'b' if x.sort == 'B' else 'f')
    if isinstance(x, (bool, int, float, np.number, np.bool_, Fraction)):
        return SymArray(_obj(lift(x)), (), kind_of_number(x))
    if isinstance(x, np.ndarray):
        if isinstance(x, _Quantity):
            x = x.to_value('')         # fails, as in astropy, unless dimensionless
        x = np.asarray(getattr(x, 'value', x))
        if x.dtype == object:
            return nested(x.tolist())
        k = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f'}.get(x.dtype.kind)
        if k is None:
            return NotImplemented
        p = np.empty(x.shape, dtype=object)
        if x.size:
            p[...] = _lift_u(x)
        return SymArray(p, x.shape, k)
    if isinstance(x, (list, tuple)):
        return nested(x)
    if isinstance(x, range):
        return nested(list(x))
    return NotImplemented


def nested(x, kind=None):
    """np.array(nested list)"""
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return SymArray(np.empty((0,), dtype=object), (0,), 'f')
        parts = [nested(y) for y in x]
        return stack(parts, 0)
    r = asym(x)
    if r is NotImplemented:
        raise Unsupported('array of %r' % type(x))
    return r


def promote(kinds):
    ks = [k for k in kinds]
    if 'f' in ks:
        return 'f'
    if 'i' in ks:
        return 'i'
    return 'b'


def stack(parts, axis=0):
    parts = [asym(p) for p in parts]
    ax0 = parts[0].axes
    for q in parts[1:]:
        if len(q.axes) != len(ax0) or not all(axis_eq(a, b) for a, b in zip(q.axes, ax0)):
            raise ShapeError('all input arrays must have the same shape')
    n = len(ax0) + 1
    axis = axis % n
    p = np.stack([convert(q.p, q.kind, promote([r.kind for r in parts])) for q in parts], axis)
    return SymArray(p, ax0[:axis] + (len(parts),) + ax0[axis:], promote([q.kind for q in parts]))


def axis_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Dim) and isinstance(b, Dim):
        return same_dim(a, b)
    return False


def convert(p, k1, k2):
    """payload conversion on kind change"""
    if k1 == k2:
        return p
    if k1 == 'b' and k2 in 'if':
        f = tm.tosortR
    elif k2 == 'b':
        f = tobool
    elif k1 == 'f' and k2 == 'i':
        f = trunc
    else:
        return p
    out = np.empty(p.shape, dtype=object)
    for i, x in np.ndenumerate(p):
        out[i] = f(x)
    return out


def trunc(x):
    if isinstance(x, Val):
        raise Unsupported('integer conversion of special value')
    if x.op == 'const':
        return tm.const(int(tm.cval(x)))
    if ctx() is not None and ctx().is_int(x):
        return x
    return tm.t_ite(tm.t_le(ZERO, x), tm.t_unary('floor', x),
                    tm.t_neg(tm.t_unary('floor', tm.t_neg(x))))


def broadcast_axes(list_axes):
    n = max(len(a) for a in list_axes)
    out = []
    for i in range(n):
        cur = 1
        for a in list_axes:
            j = i - (n - len(a))
            if j < 0:
                continue
            x = a[j]
            if isinstance(x, int) and x == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = x
            elif not axis_eq(cur, x):
                raise ShapeError('operands could not be broadcast together: %r' % (list_axes,))
        out.append(cur)
    bases = [d.base for d in out if isinstance(d, Dim)]
    if len(set(bases)) != len(bases):
        raise Unsupported('outer product over one symbolic dimension')
    return tuple(out)


def elementwise(f, arrs, kind=None):
    axes = broadcast_axes([a.axes for a in arrs])
    if kind is None:
        kind = promote([a.kind for a in arrs])
        if kind == 'b':
            kind = 'i' if f in (tm.v_add, v_sub) else 'b'
            if f is tm.v_add:
                kind = 'b'
    ps = np.broadcast_arrays(*[a.p for a in arrs]) if len(arrs) > 1 else [arrs[0].p]
    out = np.empty(ps[0].shape, dtype=object)
    dims = [a for a in axes if isinstance(a, Dim)]
    c = ctx()
    if c is not None and dims:
        c.push_dims(dims)
    try:
        memo = {}
        its = [q.ravel() for q in ps]
        flat = out.ravel() if out.ndim else None
        res = np.empty(its[0].shape, dtype=object)
        for i in range(its[0].shape[0]):
            args = tuple(q[i] for q in its)
            k = tuple(id(a) for a in args)
            v = memo.get(k)
            if v is None:
                v = f(*args)
                memo[k] = v
            res[i] = v
        out = res.reshape(ps[0].shape)
    finally:
        if c is not None and dims:
            c.pop_dims(len(dims))
    if kind == 'b' and f is tm.v_add:
        # numpy bool + bool is logical or
        out2 = np.empty(out.shape, dtype=object)
        for i, x in np.ndenumerate(out):
            out2[i] = tobool(x)
        out = out2
    return SymArray(out, axes, kind)


# ------------------------------------------------------------- Dim selection

def mask_for(arr_axis, sel, selaxis=0):
    """condition (payload term at the generic row) selecting from arr_axis"""
    if sel.kind == 'b':
        if not axis_eq(sel.axes[0], arr_axis):
            raise ShapeError('boolean index did not match indexed array: %r vs %r'
                             % (sel.axes[0], arr_axis))
        return tobool(sel.p.reshape(-1)[0]), arr_axis.sub(tobool(sel.p.reshape(-1)[0]))
    if sel.idspace is not None:
        if not axis_eq(sel.idspace, arr_axis):
            raise Unsupported('index array used on a different axis (%r on %r)' % (sel.idspace, arr_axis))
        d = sel.axes[0]
        extra = [c for c in d.conds if c not in arr_axis.conds]
        return tm.b_and(*extra), d
    raise Unsupported('general gather on symbolic dimension')


def _select(view, ax, sel):
    a = view.axes[ax]
    if sel.kind == 'b' and sel.ndim == 2:
        raise Unsupported('2-d mask selection')
    if isinstance(a, int):
        if sel.kind == 'b':
            raise ShapeError('boolean index did not match (concrete axis %d, symbolic mask)' % a)
        return gather_concrete(view, ax, sel)
    if sel.ndim != 1:
        raise Unsupported('multi-dimensional index on symbolic dimension')
    if sel.kind != 'b' and sel.idspace is None:
        return gather_dim(view, ax, sel)
    cond, d = mask_for(a, sel)
    r = SymArray(view.p.copy(), view.axes[:ax] + (d,) + view.axes[ax + 1:], view.kind)
    r.idspace = view.idspace
    return r


def gather_concrete(view, ax, sel):
    """view[..., sel, ...] along a concrete axis with symbolic integer index."""
    n = view.axes[ax]
    if sel.kind not in ('i', 'f'):
        raise Unsupported('gather index kind')
    if sel.kind == 'f':
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    selp = sel.p
    c = ctx()
    dims = [d for d in sel.axes if isinstance(d, Dim)]
    c.push_dims(dims)
    try:
        out = np.empty(view.p.shape[:ax] + selp.shape + view.p.shape[ax + 1:], dtype=object)
        for i, t in np.ndenumerate(selp):
            if isinstance(t, Val):
                raise Unsupported('special index')
            c.obligate(tm.b_and(tm.t_le(tm.const(-n), t), tm.t_lt(t, tm.const(n))),
                       'index within bounds', exc=IndexError)
            neg = not c.quick(tm.t_le(ZERO, t))
            for o in np.ndindex(*view.p.shape[:ax]):
                for q in np.ndindex(*view.p.shape[ax + 1:]):
                    acc = view.p[o + (n - 1,) + q]
                    for k in range(n - 2, -1, -1):
                        cond = tm.t_eq(t, tm.const(k))
                        if neg:
                            cond = tm.b_or(cond, tm.t_eq(t, tm.const(k - n)))
                        acc = tm.v_ite(cond, view.p[o + (k,) + q], acc)
                    out[o + i + q] = acc
    finally:
        c.pop_dims(len(dims))
    return SymArray(out, view.axes[:ax] + sel.axes + view.axes[ax + 1:], view.kind)


def gather_dim(view, ax, sel):
    raise Unsupported('gather along symbolic dimension with computed index')


def _bcast_to(v, axes, strip=True):
    """payload of v broadcast to axes"""
    va = v.axes
    # numpy assignment permits extra leading length-1 axes
    p = v.p
    while len(va) > len(axes) and isinstance(va[0], int) and va[0] == 1:
        p = p[0]
        va = va[1:]
    if len(va) > len(axes):
        raise ShapeError('could not broadcast input array from %r into %r' % (v.axes, axes))
    off = len(axes) - len(va)
    for i, x in enumerate(va):
        y = axes[off + i]
        if isinstance(x, int) and x == 1:
            continue
        if not axis_eq(x, y):
            raise ShapeError('could not broadcast input array from %r into %r' % (v.axes, axes))
    return np.broadcast_to(p, pshape(axes))


def _assign(view, v, cond):
    if isinstance(view, tuple) and view[0] == 'elem':
        _, arr, key = view
        p = v.p
        if p.size != 1:
            raise ShapeError('setting an array element with a sequence')
        if not all(isinstance(a, int) for a in v.axes):
            raise ShapeError('setting an array element with a symbolic-length array')
        arr.p[key] = conv1(p.reshape(())[()], v.kind, arr.kind)
        return
    if isinstance(view, tuple) and view[0] == 'fancy':
        _, arr, key, vw = view
        vp = _bcast_to(v, vw.axes)
        out = np.empty(vp.shape, dtype=object)
        for i, x in np.ndenumerate(vp):
            out[i] = conv1(x, v.kind, arr.kind)
        kk = []
        for k in (key if isinstance(key, tuple) else (key,)):
            if isinstance(k, SymArray):
                if k.kind == 'b':
                    k = np.array([ctx().decide(tobool(x)) for x in k.p.ravel()], dtype=bool).reshape(k.p.shape)
                else:
                    k = concrete(k).astype(int)
            kk.append(k)
        arr.p[tuple(kk)] = out
        return
    vp = _bcast_to(v, view.axes)
    for i in np.ndindex(*view.p.shape):
        view.p[i] = conv1(vp[i], v.kind, view.kind)


def conv1(x, k1, k2):
    if k1 == k2:
        return x
    if k2 == 'b':
        return tobool(x)
    if k2 == 'i' and k1 == 'f':
        return trunc(x)
    return tm.tosortR(x)


def _assign_sel(view, ax, sel, v):
    a = view.axes[ax]
    if sel.kind == 'b' and sel.ndim == 2:
        if v.p.size != 1:
            raise Unsupported('2-d mask assignment of arrays')
        x = conv1(v.p.reshape(())[()], v.kind, view.kind)
        m = _bcast_to(sel, view.axes)
        for i in np.ndindex(*view.p.shape):
            view.p[i] = tm.v_ite(tobool(m[i]), x, view.p[i])
        return
    if isinstance(a, int):
        raise Unsupported('symbolic assignment index on concrete axis')
    if sel.kind != 'b' and sel.idspace is None:
        raise Unsupported('scatter with computed index')
    cond, d = mask_for(a, sel)
    target = view.axes[:ax] + (d,) + view.axes[ax + 1:]
    vp = _bcast_to(v, target)
    for i in np.ndindex(*view.p.shape):
        view.p[i] = tm.v_ite(cond, conv1(vp[i], v.kind, view.kind), view.p[i])


# ------------------------------------------------------------------ concrete

def allconst(s):
    for x in s.p.ravel():
        if isinstance(x, Val):
            if x.nan is TRUE:
                continue
            return False
        if x.op not in ('const', 'true', 'false'):
            return False
    return True


def concrete(s):
    if any(isinstance(a, Dim) for a in s.axes) or not allconst(s):
        raise Unsupported('symbolic array where a concrete one is needed')
    out = np.empty(s.p.shape, dtype={'b': bool, 'i': int, 'f': float}[s.kind])
    for i, x in np.ndenumerate(s.p):
        if isinstance(x, Val):
            out[i] = np.nan
        elif x.sort == 'B':
            out[i] = x is TRUE
        else:
            out[i] = tm.cval(x)
    return out
