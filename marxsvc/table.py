"""Symbolic stand-in for astropy.table inside the code under verification.

Contract of the astropy operations used by marxs: a table is an ordered mapping
name -> column of one common length; ``t[name]`` is a live view; assigning a
whole column replaces it; selecting rows copies.
"""
from collections import OrderedDict
import copy as _copy
import numpy as np
import astropy.table
from . import terms as tm
from . import symarr as sa
from .terms import Unsupported, TRUE, FALSE, ZERO, ONE
from .symarr import SymArray, Dim, asym, ShapeError, axis_eq


class SymColumn(SymArray):
    def __init__(self, p, axes, kind='f', name=None, unit=None):
        SymArray.__init__(self, p, axes, kind)
        self.name = name
        self._unit = unit
        self.meta = OrderedDict()
        self.description = None
        self._tab = None

    @property
    def unit(self):
        return self._unit

    @unit.setter
    def unit(self, u):
        self._unit = u
        if self._tab is not None:
            self._tab._units[self.name] = u

    @property
    def data(self):
        r = SymArray(self.p, self.axes, self.kind)
        return r

    @property
    def value(self):
        return self.data

    @property
    def quantity(self):
        from .symq import SymQ
        return SymQ(self.data, self._unit or '')

    def to(self, unit, equivalencies=(), **k):
        if self._unit is None:
            raise AttributeError('unit')
        return self.quantity.to(unit, equivalencies)

    def __iadd__(self, o):
        SymArray.__iadd__(self, o)
        return self


def stacked(vals):
    vals = [asym(getattr(v, 'v', v)) for v in vals]
    p = np.empty((len(vals),), dtype=object)
    for i, v in enumerate(vals):
        if v is NotImplemented or v.ndim != 0:
            raise Unsupported('rows of a table with entries that are not numbers')
        p[i] = v.p[()]
    return SymArray(p, (len(vals),), vals[0].kind)


def vstack(tabs, **k):
    """astropy.table.vstack for tables of known length with the same columns"""
    if not any(isinstance(t, SymTable) for t in tabs):
        return astropy.table.vstack(tabs, **k)
    if k or not all(isinstance(t, SymTable) and isinstance(t._dim, int) and set(t._cols) == set(tabs[0]._cols) for t in tabs):
        raise Unsupported('vstack of these tables')
    out = SymTable(sum(t._dim for t in tabs))
    for c in tabs[0]._cols:
        if len(set(str(t._units.get(c)) for t in tabs)) > 1:
            raise Unsupported('vstack of columns with different units')
        p = np.concatenate([t._cols[c].p for t in tabs])
        out._cols[c] = SymArray(p, (out._dim,) + tuple(tabs[0]._cols[c].axes[1:]), tabs[0]._cols[c].kind)
        out._units[c] = tabs[0]._units.get(c)
    return out


class SymTable(object):
    _is_symtable = True

    def __init__(self, dim=None, cols=None, meta=None, names=None, **kw):
        self._cols = OrderedDict()
        self._units = {}
        self.meta = OrderedDict(meta or {})
        self._dim = None
        if isinstance(dim, (Dim, int)) and not isinstance(dim, bool):
            self._dim = dim
        elif isinstance(dim, SymTable):
            o = dim
            self._dim = o._dim
            self.meta = _copy.deepcopy(o.meta)
            for c in o._cols:
                self._cols[c] = o._cols[c].copy()
                self._units[c] = o._units.get(c)
        elif dim is not None:
            data = dim
            if isinstance(data, dict):
                for k, v in data.items():
                    self[k] = v
            elif isinstance(data, (list, tuple)) and data and all(isinstance(x, dict) for x in data):
                # one dictionary for each row
                for k in data[0]:
                    if not all(k in x for x in data):
                        raise Unsupported('rows with missing entries')
                    self[k] = stacked([x[k] for x in data])
            elif isinstance(data, (list, tuple)) and (names is not None or all(hasattr(x, 'name') for x in data)):
                names = names or [x.name for x in data]
                for k, v in zip(names, data):
                    self[k] = v
            else:
                raise Unsupported('Table(%r)' % type(data))
        if cols:
            for k, v in cols.items():
                self[k] = v

    # -- basics
    @property
    def colnames(self):
        return list(self._cols)

    @property
    def columns(self):
        return OrderedDict((c, self[c]) for c in self._cols)

    @property
    def dtype(self):
        raise Unsupported('Table.dtype')

    def keys(self):
        return list(self._cols)

    def __contains__(self, k):
        return k in self._cols

    def _symlen_(self):
        if self._dim is None:
            return 0
        return self._dim if isinstance(self._dim, int) else sa.dimlen(self._dim)

    def __len__(self):
        if self._dim is None:
            return 0
        if isinstance(self._dim, int):
            return self._dim
        raise Unsupported('len of symbolic table')

    def __bool__(self):
        return True

    def __iter__(self):
        raise Unsupported('iteration over the rows of a symbolic table')

    def copy(self, copy_data=True):
        t = SymTable(self._dim)
        for c in self._cols:
            t._cols[c] = self._cols[c].copy()
            t._units[c] = self._units.get(c)
        t.meta = _copy.deepcopy(self.meta)
        return t

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def _fit(self, v, name):
        unit = getattr(v, 'unit', None)
        if type(v).__name__ == 'SymQ':
            v = v.v
        if type(v).__module__.startswith('astropy') and unit is not None:
            v = np.asarray(getattr(v, 'value', v))
        if isinstance(v, (list, tuple)) and not v:
            raise Unsupported('empty column')
        a = asym(v)
        if a is NotImplemented:
            raise Unsupported('column of %r' % type(v))
        if a.ndim == 0:
            if self._dim is None:
                raise Unsupported('scalar column in empty table')
            p = np.empty((self._dim if isinstance(self._dim, int) else 1,), dtype=object)
            p[...] = a.p[()]
            return SymArray(p, (self._dim,), a.kind), unit
        if self._dim is None:
            self._dim = a.axes[0]
        if not axis_eq(a.axes[0], self._dim):
            raise ShapeError('Inconsistent data column lengths for %s: %r vs %r' % (name, a.axes[0], self._dim))
        r = a.copy()
        r.axes = (self._dim,) + a.axes[1:]
        r.idspace = None
        return SymArray(r.p, r.axes, r.kind), unit

    # -- access
    def __getitem__(self, key):
        if isinstance(key, str):
            if key not in self._cols:
                raise KeyError(key)
            a = self._cols[key]
            c = SymColumn(a.p, a.axes, a.kind, key, self._units.get(key))
            c._tab = self
            return c
        if isinstance(key, (list, tuple)) and key and all(isinstance(k, str) for k in key):
            t = SymTable(self._dim)
            for k in key:
                t._cols[k] = self._cols[k].copy()
                t._units[k] = self._units.get(k)
            t.meta = _copy.deepcopy(self.meta)
            return t
        if isinstance(key, (int, np.integer)):
            raise Unsupported('row of a symbolic table')
        if isinstance(key, slice) and key == slice(None):
            return self.copy()
        if not self._cols:
            raise Unsupported('selection from empty table')
        t = None
        out = OrderedDict()
        dim = None
        for k, a in self._cols.items():
            out[k] = a[key] if not isinstance(key, SymArray) or True else None
            dim = out[k].axes[0]
        t = SymTable(dim)
        t._cols = out
        t._units = dict(self._units)
        t.meta = _copy.deepcopy(self.meta)
        return t

    def __setitem__(self, key, v):
        if not isinstance(key, str):
            raise Unsupported('row assignment in symbolic table')
        a, unit = self._fit(v, key)
        self._cols[key] = a
        self._units[key] = unit

    def __delitem__(self, key):
        self.remove_columns([key] if isinstance(key, str) else key)

    def add_column(self, col, index=None, name=None, copy=True, **k):
        name = name or getattr(col, 'name', None)
        if name in self._cols:
            raise ValueError('Duplicate column names')
        if isinstance(col, LazyColumn):
            col.put(self, name)
        else:
            self[name] = col
        if index is not None:
            order = list(self._cols)
            order.remove(name)
            order.insert(index, name)
            self._cols = OrderedDict((c, self._cols[c]) for c in order)

    def add_columns(self, cols, indexes=None, names=None, **k):
        for i, c in enumerate(cols):
            self.add_column(c, name=names[i] if names else None)

    def replace_column(self, name, col):
        self[name] = col

    def remove_column(self, n):
        self.remove_columns([n])

    def remove_columns(self, names):
        if isinstance(names, str):
            names = [names]
        for n in names:
            if n not in self._cols:
                raise KeyError('Column {} does not exist'.format(n))
            del self._cols[n]

    def keep_columns(self, names):
        self.remove_columns([c for c in self._cols if c not in names])

    def rename_column(self, a, b):
        self._cols = OrderedDict((b if k == a else k, v) for k, v in self._cols.items())
        self._units[b] = self._units.pop(a, None)

    def write(self, *a, **k):
        raise Unsupported('file output')


class LazyColumn(object):
    """Column(name=..., length=..., shape=..., dtype=..., data=...)"""

    def __init__(self, data=None, name=None, dtype=None, shape=(), length=0, description=None,
                 unit=None, format=None, meta=None, copy=False, **k):
        self.d = data
        self.name = name
        self.dtype = dtype
        self.shape = shape
        self.length = length
        self.unit = unit
        self.description = description
        self.meta = meta

    def _to_sym(self):
        from . import npshim
        if self.d is None:
            kd = npshim.kind_of_dtype(self.dtype)
            axes = sa.toshape(self.length) + sa.toshape(self.shape)
            return sa.full(axes, FALSE if kd == 'b' else ZERO, kd)
        a = asym(self.d)
        if self.dtype is not None:
            a = a.astype(self.dtype)
        return a

    @property
    def data(self):
        return self._to_sym()

    def put(self, tab, name):
        tab[name] = self._to_sym()
        tab._units[name] = self.unit

    def __getitem__(self, k):
        return self._to_sym()[k]

    def __setitem__(self, k, v):
        a = self._to_sym()
        a[k] = v
        self.d, self.dtype = a, None

    def __len__(self):
        raise Unsupported('len of symbolic column')

    def to(self, unit, **k):
        import astropy.units as u
        from .symq import SymQ
        return SymQ(self._to_sym(), self.unit).to(unit, **k)


def _tabmeta(real, sym):
    class Meta(type):
        def __call__(cls, *a, **k):
            from .npshim import has_sym
            def anysym(x, d=0):
                if isinstance(x, (SymTable, SymArray, LazyColumn)) or has_sym(x):
                    return True
                if isinstance(x, dict):
                    return any(anysym(v) for v in x.values())
                if isinstance(x, (list, tuple)) and d < 3:
                    return any(anysym(v, d + 1) for v in x)
                return False
            if sym is LazyColumn:
                if anysym(list(a)) or anysym(k):
                    return LazyColumn(*a, **k)
                return real(*a, **k)
            if anysym(list(a)) or anysym(k):
                return SymTable(*a, **k)
            return real(*a, **k)

        def __instancecheck__(cls, o):
            return isinstance(o, (real, sym)) or (sym is LazyColumn and isinstance(o, SymColumn))

        def __subclasscheck__(cls, o):
            return issubclass(o, (real, sym))

        def __getattr__(cls, n):
            return getattr(real, n)
    return Meta


TableShim = _tabmeta(astropy.table.Table, SymTable)('Table', (), {})
QTableShim = _tabmeta(astropy.table.QTable, SymTable)('QTable', (), {})
ColumnShim = _tabmeta(astropy.table.Column, LazyColumn)('Column', (), {})
