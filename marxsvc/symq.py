"""Symbolic stand-in for astropy.units.Quantity.

Contract assumed of astropy.units: a quantity is a value and a unit; the units
themselves (and every conversion factor between them) are the real astropy
units, only the numbers are symbolic.  Conversion factors between angular units
are exact rational multiples of pi, as in the definition of the units."""
import math
from fractions import Fraction
import numpy as np
import astropy.units as u
from astropy.units import UnitBase
from . import terms as tm
from . import symarr as sa
from .symarr import SymArray, asym
from .terms import Unsupported

DIMLESS = u.dimensionless_unscaled


def _exact(f):
    """float factor -> exact term if it is a simple rational (times a power of pi)"""
    for k in (0, 1, -1, 2, -2):
        g = f / math.pi ** k
        if g == 0:
            break
        small = abs(g) < 1
        q = Fraction(1 / g if small else g).limit_denominator(10 ** 9)
        if q and abs(float(q) - (1 / g if small else g)) <= 4e-16 * abs(float(q)):
            simple = q.denominator <= 10 ** 4 and (q.denominator * q.numerator <= 10 ** 10 or
                                                   set(str(q.numerator)) <= set('10') and str(q.numerator).count('1') == 1)
            if simple:
                q = 1 / q if small else q
                t = tm.const(q)
                for _ in range(abs(k)):
                    t = tm.t_mul(t, tm.PI) if k > 0 else tm.t_div(t, tm.PI)
                return t
    return tm.lift(f)


def factor(u1, u2):
    if u1 == u2:
        return None
    if not u1.is_equivalent(u2, equivalencies=None) and u1.is_equivalent(u2):
        raise Unsupported('equivalencies enabled for conversion from %s to %s' % (u1, u2))
    f = u1.to(u2)
    if f == 1:
        return None
    return SymArray(sa._obj(_exact(float(f))), (), 'f')


def scaled(v, u1, u2):
    f = factor(u1, u2)
    return v if f is None else v * f


def split(o):
    """-> (value, unit) or None"""
    if isinstance(o, SymQ):
        return o.v, o.unit
    if isinstance(o, UnitBase):
        return 1, o
    if isinstance(o, u.Quantity):
        return asym(np.asarray(o.value)), o.unit
    a = asym(o)
    if a is NotImplemented:
        return None
    if isinstance(o, SymArray) and getattr(o, '_unit', None) is not None:
        return o.data, u.Unit(o._unit)
    return a, DIMLESS


class SymQ(object):
    __array_priority__ = 100000
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, v, unit):
        self.v = asym(v)
        self.unit = unit if isinstance(unit, UnitBase) else u.Unit(unit)

    # -- value and unit
    @property
    def value(self):
        return self.v

    def to(self, unit, equivalencies=(), copy=True):
        unit = u.Unit(unit)
        if self.unit.is_equivalent(unit, equivalencies=None):
            v = scaled(self.v, self.unit, unit)
            return SymQ(v.copy() if copy else v, unit)
        if not self.unit.is_equivalent(unit, equivalencies):
            raise u.UnitConversionError('%s and %s are not convertible' % (self.unit, unit))
        # the equivalencies used (spectral) are proportional or inversely proportional
        a, b, c = [float(self.unit.to(unit, x, equivalencies=equivalencies)) for x in (1., 2., 5.)]
        if abs(b - 2 * a) <= 1e-12 * abs(a) and abs(c - 5 * a) <= 1e-12 * abs(c):
            return SymQ(self.v * a, unit)
        if abs(2 * b - a) <= 1e-12 * abs(a) and abs(5 * c - a) <= 1e-12 * abs(a):
            return SymQ(a / self.v, unit)
        raise Unsupported('equivalency between %s and %s' % (self.unit, unit))

    def to_value(self, unit=None, equivalencies=()):
        return self.v if unit is None else self.to(unit, equivalencies).v

    deg = degree = property(lambda s: s.to_value(u.deg))
    rad = radian = property(lambda s: s.to_value(u.rad))

    def decompose(self, bases=()):
        d = self.unit.decompose(bases=bases)
        base = d / d.scale
        return SymQ(scaled(self.v, self.unit, base), base)

    si = property(decompose)

    @property
    def isscalar(self):
        return self.v.ndim == 0

    def _to_sym(self):
        if not self.unit.is_equivalent(DIMLESS):
            raise Unsupported('array with unit %s used as a plain array' % self.unit)
        return scaled(self.v, self.unit, DIMLESS)

    def __array__(self, *a, **k):
        raise Unsupported('concrete array of a symbolic quantity')

    def __lshift__(self, unit):
        return self.to(unit, copy=False)

    __ilshift__ = __lshift__

    # -- arithmetic
    def _mul(self, o, f, fu):
        s = split(o)
        if s is None:
            return NotImplemented
        return SymQ(f(self.v, s[0]), fu(self.unit, s[1]))

    def __mul__(self, o):
        return self._mul(o, lambda a, b: a * b, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._mul(o, lambda a, b: b * a, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._mul(o, lambda a, b: a / b, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._mul(o, lambda a, b: b / a, lambda a, b: b / a)

    def __pow__(self, n):
        return SymQ(self.v ** n, self.unit ** n)

    def _same(self, o, f, swap=False):
        s = split(o)
        if s is None:
            return NotImplemented
        v, un = s
        if un == DIMLESS and not self.unit.is_equivalent(DIMLESS):
            # astropy allows 0, inf and nan without unit
            x = sa.concrete(v) if isinstance(v, SymArray) and sa.allconst(v) else None
            if x is None or not np.all((np.asarray(x, float) == 0) | ~np.isfinite(np.asarray(x, float))):
                raise u.UnitConversionError("Can only apply function to dimensionless quantities")
        else:
            v = scaled(v, un, self.unit)
        return f(v, self.v) if swap else f(self.v, v)

    def __add__(self, o):
        return SymQ(self._same(o, lambda a, b: a + b), self.unit)

    __radd__ = __add__

    def __sub__(self, o):
        return SymQ(self._same(o, lambda a, b: a - b), self.unit)

    def __rsub__(self, o):
        return SymQ(self._same(o, lambda a, b: a - b, True), self.unit)

    def __mod__(self, o):
        return SymQ(self._same(o, lambda a, b: a % b), self.unit)

    def __iadd__(self, o):
        self.v += self._same(o, lambda a, b: b)
        return self

    def __isub__(self, o):
        self.v -= self._same(o, lambda a, b: b)
        return self

    def __neg__(self):
        return SymQ(-self.v, self.unit)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return SymQ(abs(self.v), self.unit)

    def __lt__(self, o):
        return self._same(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._same(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._same(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._same(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        try:
            return self._same(o, lambda a, b: a == b)
        except u.UnitConversionError:
            return False

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        try:
            return self._same(o, lambda a, b: a != b)
        except u.UnitConversionError:
            return True

    def __bool__(self):
        return bool(self.v)

    def __float__(self):
        return float(self._to_sym())

    def __int__(self):
        return int(self._to_sym())

    # -- array interface
    def __getitem__(self, k):
        return SymQ(self.v[k], self.unit)

    def __setitem__(self, k, val):
        self.v[k] = self._same(val, lambda a, b: b)

    def __iter__(self):
        for x in self.v:
            yield SymQ(x, self.unit)

    def __len__(self):
        return len(self.v)

    def _symlen_(self):
        from . import npshim
        return npshim.shim_len(self.v)

    shape = property(lambda s: s.v.shape)
    ndim = property(lambda s: s.v.ndim)
    size = property(lambda s: s.v.size)
    dtype = property(lambda s: s.v.dtype)
    T = property(lambda s: SymQ(s.v.T, s.unit))

    def copy(self, *a):
        return SymQ(self.v.copy(), self.unit)

    def __deepcopy__(self, memo):
        return self.copy()

    def _same_unit(name):
        def f(self, *a, **k):
            return SymQ(getattr(self.v, name)(*a, **k), self.unit)
        return f

    for _n in ('sum', 'mean', 'min', 'max', 'cumsum', 'reshape', 'flatten', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'round', 'item'):
        locals()[_n] = _same_unit(_n)
    del _n

    def any(self, *a, **k):
        return self.v.any(*a, **k)

    def argmin(self, *a, **k):
        return self.v.argmin(*a, **k)

    def argmax(self, *a, **k):
        return self.v.argmax(*a, **k)

    def __repr__(self):
        return 'SymQ(%r, %s)' % (self.v, self.unit)


def has_q(x, depth=0):
    """a symbolic quantity, or a concrete one, somewhere in x"""
    if isinstance(x, (SymQ, u.Quantity)):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_q(y, depth + 1) for y in x)
    return False


def has_symq(x, depth=0):
    from . import npshim
    return npshim.has_sym(x)


# ------------------------------------------------- numpy functions of quantities

def _rad(x):
    s = split(x)
    return s[0] if s[1] == DIMLESS else scaled(s[0], s[1], u.rad)


def _common(xs):
    """values of all in the unit of the first"""
    sp = [split(x) for x in xs]
    un = sp[0][1]
    return [scaled(v, w, un) for v, w in sp], un


def handle(np_, name, a, k):
    """np_.name(*a, **k) with quantities among the arguments"""
    f = getattr(np_, name)
    if name in ('sin', 'cos', 'tan'):
        return SymQ(f(_rad(a[0])), DIMLESS)
    if name in ('arcsin', 'arccos', 'arctan'):
        return SymQ(f(SymQ(*split(a[0]))._to_sym()), u.rad)
    if name in ('arctan2', 'hypot', 'maximum', 'minimum', 'fmod', 'mod', 'remainder', 'add', 'subtract'):
        v, un = _common(a[:2])
        return SymQ(f(*v), u.rad if name == 'arctan2' else un)
    if name in ('less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal'):
        v, un = _common(a[:2])
        return f(*v)
    if name in ('multiply', 'divide', 'true_divide', 'dot', 'cross', 'matmul', 'outer', 'einsum'):
        if name == 'einsum':
            sp = [split(x) for x in a[1:]]
            un = DIMLESS
            for _, w in sp:
                un = un * w
            return SymQ(f(a[0], *[v for v, _ in sp], **k), un)
        (v1, u1), (v2, u2) = split(a[0]), split(a[1])
        return SymQ(f(v1, v2, *a[2:], **k), u1 / u2 if 'divide' in name else u1 * u2)
    if name == 'sqrt':
        v, un = split(a[0])
        return SymQ(f(v), un ** 0.5)
    if name == 'square':
        v, un = split(a[0])
        return SymQ(f(v), un ** 2)
    if name in ('absolute', 'abs', 'fabs', 'negative', 'positive', 'sum', 'mean', 'min', 'max', 'amin', 'amax', 'nanmin', 'nanmax', 'nansum', 'nanmean', 'median',
                'cumsum', 'ravel', 'sort', 'transpose', 'squeeze', 'atleast_1d', 'tile', 'repeat', 'reshape', 'broadcast_to', 'array',
                'asarray', 'asanyarray', 'diff', 'norm', 'flip'):
        if isinstance(a[0], (list, tuple)):
            v, un = _common(a[0])
            v = np_.stack(v)
        else:
            v, un = split(a[0])
        return SymQ(f(v, *a[1:], **k), un)
    if name in ('hstack', 'vstack', 'stack', 'concatenate', 'column_stack', 'meshgrid', 'broadcast_arrays'):
        xs = list(a[0]) if name not in ('meshgrid', 'broadcast_arrays') else list(a)
        v, un = _common(xs)
        if name in ('meshgrid', 'broadcast_arrays'):
            return [SymQ(x, un) for x in f(*v, **k)]
        return SymQ(f(v, *a[1:], **k), un)
    if name == 'where' and len(a) == 3:
        v, un = _common(a[1:])
        return SymQ(f(a[0], *v), un)
    if name == 'interp' and len(a) == 3 and not k:
        v, _ = _common(a[:2])
        y, un = split(a[2])
        return SymQ(f(v[0], v[1], y), un)
    if name == 'clip':
        v, un = _common([x for x in a[:3]])
        return SymQ(f(*v), un)
    if name in ('isnan', 'isfinite', 'isinf', 'sign', 'ones_like', 'zeros_like', 'argmin', 'argmax', 'argsort', 'isscalar', 'shape', 'ndim', 'size', 'allclose', 'isclose'):
        if name in ('allclose', 'isclose'):
            v, un = _common(a[:2])
            return f(*(v + list(a[2:])), **k)
        return f(split(a[0])[0], *a[1:], **k)
    if name in ('exp', 'log', 'log10'):
        return SymQ(f(SymQ(*split(a[0]))._to_sym()), DIMLESS)
    if name in ('linspace', 'arange'):
        m = 3 if name == 'arange' else 2
        v, un = _common(a[:m])
        return SymQ(f(*(v + list(a[m:])), **k), un)
    return None


class _QMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (u.Quantity, SymQ))

    def __call__(cls, v, unit=None, **k):
        if isinstance(v, SymQ):
            return v.copy() if unit is None else v.to(unit)
        if has_symq(v) or (isinstance(v, (list, tuple)) and any(isinstance(x, SymQ) for x in v)):
            if isinstance(v, (list, tuple)):
                vs, un = _common(v)
                from . import load
                r = SymQ(load.shims()['np'].stack(vs), un)
                return r if unit is None else r.to(unit)
            return SymQ(v, DIMLESS if unit is None else unit)
        return u.Quantity(v, unit=unit, **k)


class QuantityShim(object, metaclass=_QMeta):
    pass


class UnitsShim(object):
    """Stand-in for the module astropy.units in the code under verification."""
    Quantity = QuantityShim

    def __getattr__(self, n):
        return getattr(u, n)
