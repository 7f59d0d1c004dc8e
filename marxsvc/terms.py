"""Hash-consed term language of the verification-condition generator.

Sorts: 'R' (mathematical reals), 'B' (booleans).  A value that may be special
(NaN / +-inf) is a ``Val``: real part, nan flag, inf flag (the sign of the real
part carries the sign of the infinity).  Plain ``T`` of sort R is a finite
number.
"""
from fractions import Fraction
import math


class Unsupported(Exception):
    """A construct outside the verified subset was met."""


_table = {}
_next = [0]

# hooks filled by ctx: context dependent simplification
HOOK = {'nonzero': None, 'nonneg': None, 'truth': None, 'canon_sqrt': None}


class T(object):
    __slots__ = ('op', 'args', 'sort', 'id', '_rows', '_leaves', '__weakref__')
    __array_ufunc__ = None

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    def __bool__(self):
        if self is TRUE:
            return True
        if self is FALSE:
            return False
        if self.sort == 'B' and HOOK['truth'] is not None:
            return HOOK['truth'](self)
        raise Unsupported('truth value of symbolic term')

    # arithmetic ----------------------------------------------------------
    def __add__(self, o):
        return v_add(self, lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        return v_add(self, v_neg(lift(o)))

    def __rsub__(self, o):
        return v_add(lift(o), v_neg(self))

    def __mul__(self, o):
        return v_mul(self, lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return v_div(self, lift(o))

    def __rtruediv__(self, o):
        return v_div(lift(o), self)

    def __neg__(self):
        return v_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return v_abs(self)

    def conjugate(self):
        return self


def mk(op, args, sort):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.sort = sort
        t.id = _next[0]
        t._rows = None
        t._leaves = None
        _next[0] += 1
        _table[key] = t
    return t


TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')


def const(x):
    return mk('const', (Fraction(x),), 'R')


ZERO = const(0)
ONE = const(1)
MONE = const(-1)
PI = mk('pi', (), 'R')


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


_PI_MULT = {}
for _d in (1, 2, 3, 4, 6, 8, 12, 180, 360, 2 * 180 * 3600, 180 * 3600, 180*60):
    for _n in (1, 2, 3, 4, 5, 7, 8, 10, 11):
        for _s in (1, -1):
            _PI_MULT.setdefault(_s * (math.pi * _n / _d), Fraction(_s * _n, _d))
            _PI_MULT.setdefault(_s * _n * math.pi / _d, Fraction(_s * _n, _d))
for _n in range(1, 33):
    for _s in (1, -1):
        _PI_MULT.setdefault(_s * _n * math.pi, Fraction(_s * _n))
        _PI_MULT.setdefault(_s * _n * (2 * math.pi), Fraction(_s * 2 * _n))


_SQRT_SNAP = {}
for _n in (2, 3, 5, 6):
    _SQRT_SNAP[math.sqrt(_n)] = _n


def from_number(x):
    """Concrete python/numpy number -> term (exact)."""
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, (int, np.integer, Fraction)):
        return const(int(x) if not isinstance(x, Fraction) else x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return Val(ONE if x > 0 else MONE, FALSE, TRUE)
        if x in _PI_MULT:
            return t_mul(const(_PI_MULT[x]), PI)
        # decimal literals in the source (0.1, 1e-6, ...) are read as the
        # decimal they denote, everything else as the exact binary value
        f = Fraction(repr(x))
        return const(f)
    raise Unsupported('number of type %r' % type(x))


def lift(x):
    if isinstance(x, (T, Val)):
        return x
    return from_number(x)


def var(name, row=None, idx=(), sort='R'):
    return mk('var', (name, row, idx, sort), sort)


_rowvars = {}


def rowvar(name):
    return mk('row', (name,), 'I')


_fresh = [0]


def reset_fresh():
    _fresh[0] = 0


def fresh_name(prefix):
    _fresh[0] += 1
    return '%s!%d' % (prefix, _fresh[0])


# ---------------------------------------------------------------- real terms

def t_add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    # flatten into coefficient map
    coef = {}
    order = []

    def put(t, c):
        if t.op == 'add':
            for x in t.args:
                put(x, c)
            return
        if t.op == 'const':
            k, v = ONE, c * cval(t)
        elif t.op == 'mul' and t.args[0].op == 'const':
            rest = t.args[1:]
            k = rest[0] if len(rest) == 1 else mk('mul', rest, 'R')
            v = c * cval(t.args[0])
        else:
            k, v = t, c
        if k in coef:
            coef[k] += v
        else:
            coef[k] = v
            order.append(k)
    put(a, Fraction(1))
    put(b, Fraction(1))
    parts = []
    for k in sorted(order, key=lambda t: t.id):
        v = coef[k]
        if v == 0:
            continue
        parts.append(t_mul(const(v), k))
    if not parts:
        return ZERO
    if len(parts) == 1:
        return parts[0]
    return mk('add', tuple(parts), 'R')


def over_pi(t):
    if t.op == 'mul':
        return any(over_pi(x) for x in t.args)
    return t.op == 'div' and (t.args[1] is PI or t.args[1].op == 'mul' and PI in t.args[1].args)


def t_mul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    c = Fraction(1)
    fac = []
    for t in (a, b):
        if t.op == 'const':
            c *= cval(t)
        elif t.op == 'mul':
            for x in t.args:
                if x.op == 'const':
                    c *= cval(x)
                else:
                    fac.append(x)
        else:
            fac.append(t)
    if c == 0:
        return ZERO
    fac.sort(key=lambda t: t.id)
    # pi * (x / pi) -> x
    if PI in fac:
        for i, t in enumerate(fac):
            if t.op == 'div' and (t.args[1] is PI or t.args[1].op == 'mul' and PI in t.args[1].args):
                rest = list(fac)
                del rest[i]
                rest.remove(PI)
                if t.args[1] is PI:
                    r = t.args[0]
                else:
                    d = list(t.args[1].args)
                    d.remove(PI)
                    e = ONE
                    for x in d:
                        e = t_mul(e, x)
                    r = t_div(t.args[0], e)
                for x in rest:
                    r = t_mul(r, x)
                return t_mul(const(c), r)
        # pi * (x / pi + y) -> x + pi * y
        for i, t in enumerate(fac):
            if t.op == 'add' and any(over_pi(x) for x in t.args):
                rest = list(fac)
                del rest[i]
                r = ZERO
                for x in t.args:
                    y = t_mul(const(c), x)
                    for z in rest:
                        y = t_mul(y, z)
                    r = t_add(r, y)
                return r
    # sqrt(t)*sqrt(t) -> t
    if len(fac) >= 2:
        out = []
        i = 0
        extra = None
        while i < len(fac):
            if (fac[i].op == 'sqrt' and i + 1 < len(fac) and fac[i + 1] is fac[i]):
                e = fac[i].args[0]
                extra = e if extra is None else t_mul(extra, e)
                i += 2
            else:
                out.append(fac[i])
                i += 1
        if extra is not None:
            r = extra
            for f in out:
                r = t_mul(r, f)
            return t_mul(const(c), r)
    if len(fac) == 1 and c != 1 and fac[0].op == 'add':
        # distribute constants over sums
        r = ZERO
        parts = tuple(t_mul(const(c), x) for x in fac[0].args)
        return mk('add', tuple(sorted(parts, key=lambda t: (t.args[1].id if t.op == 'mul' and t.args[0].op == 'const' and len(t.args) == 2 else t.id))), 'R') if False else _sum(parts)
    if not fac:
        return const(c)
    if c != 1:
        fac = [const(c)] + fac
    if len(fac) == 1:
        return fac[0]
    return mk('mul', tuple(fac), 'R')


def _sum(parts):
    r = ZERO
    for p in parts:
        r = t_add(r, p)
    return r


def t_neg(a):
    return t_mul(MONE, a)


def t_sub(a, b):
    return t_add(a, t_neg(b))


def t_div(a, b):
    """a / b; semantics unspecified where b == 0."""
    if b.op == 'const':
        if cval(b) == 0:
            return var(fresh_name('div0'))
        return t_mul(const(1 / cval(b)), a)
    if a is ZERO:
        return ZERO
    if a is b:
        return ONE
    if a.op == 'mul' and a.args[0].op == 'const':
        rest = a.args[1:]
        k = rest[0] if len(rest) == 1 else mk('mul', rest, 'R')
        return t_mul(a.args[0], t_div(k, b))
    if b.op == 'mul' and b.args[0].op == 'const':
        rest = b.args[1:]
        k = rest[0] if len(rest) == 1 else mk('mul', rest, 'R')
        return t_mul(const(1 / cval(b.args[0])), t_div(a, k))
    if HOOK.get('canon_div') is not None:
        r = HOOK['canon_div'](a, b)
        if r is not None:
            return r
    return mk('div', (a, b), 'R')


KNOWN = {}      # literals that are preconditions for the generic row


def t_ite(c, a, b):
    c = KNOWN.get(c, c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if c.op == 'not':
        return t_ite(c.args[0], b, a)
    # ite(c, ite(c, x, y), z) -> ite(c, x, z)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', (c, a, b), 'R')


# ----------------------------------------------------------------- booleans

def b_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'B')


_bs_memo = {}


def _bsimp(t, m):
    """propagate literal values through and/or/not structure"""
    if t in m:
        return m[t]
    if t.op == 'not':
        return b_not(_bsimp(t.args[0], m))
    if t.op in ('and', 'or'):
        new = [_bsimp(a, m) for a in t.args]
        if all(x is y for x, y in zip(new, t.args)):
            return t
        return b_and(*new) if t.op == 'and' else b_or(*new)
    return t


def _absorb(out, neg):
    """members of an and (neg=False) / or (neg=True) simplified by its literals"""
    m = {}
    comp = False
    for y in out:
        if y.op in ('and', 'or') or (y.op == 'not' and y.args[0].op in ('and', 'or')):
            comp = True
            continue
        a, v = (y.args[0], False) if y.op == 'not' else (y, True)
        if neg:
            v = not v
        m[a] = TRUE if v else FALSE
    if not comp or not m:
        return None
    new = []
    chg = False
    for y in out:
        if y.op in ('and', 'or') or (y.op == 'not' and y.args[0].op in ('and', 'or')):
            z = _bsimp(y, m)
            if z is not y:
                chg = True
            new.append(z)
        else:
            new.append(y)
    return new if chg else None


def b_and(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == 'and' else (x,)):
            if y is TRUE or y in seen:
                continue
            if y is FALSE:
                return FALSE
            seen.add(y)
            out.append(y)
    for y in out:
        if b_not(y) in seen:
            return FALSE
    new = _absorb(out, False)
    if new is not None:
        return b_and(*new)
    for y in out:
        if y.op == 'or' and any(z in seen for z in y.args):
            return b_and(*[w for w in out if w is not y])
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(sorted(out, key=lambda t: t.id)), 'B')


def b_or(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == 'or' else (x,)):
            if y is FALSE or y in seen:
                continue
            if y is TRUE:
                return TRUE
            seen.add(y)
            out.append(y)
    for y in out:
        if b_not(y) in seen:
            return TRUE
    new = _absorb(out, True)
    if new is not None:
        return b_or(*new)
    for y in out:
        if y.op == 'and' and any(z in seen for z in y.args):
            return b_or(*[w for w in out if w is not y])
    if len(out) > 1:
        ands = [(y, frozenset(y.args) if y.op == 'and' else frozenset((y,))) for y in out]
        if len(ands) <= 12:
            for i in range(len(ands)):
                for j in range(len(ands)):
                    if i != j:
                        d = ands[i][1] - ands[j][1]
                        if not d:        # j implies i
                            return b_or(*[y for k, y in enumerate(out) if k != j])
                        if len(d) == 1 and len(ands[i][1]) <= len(ands[j][1]):
                            z = next(iter(d))
                            if b_not(z) in ands[j][1]:
                                # (X & z) | (X & Y & ~z)  ->  (X & z) | (X & Y)
                                rest = [y for k, y in enumerate(out) if k != j]
                                return b_or(b_and(*[w for w in ands[j][1] if w is not b_not(z)]), *rest)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(sorted(out, key=lambda t: t.id)), 'B')


def b_implies(a, b):
    return b_or(b_not(a), b)


def b_iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return b_not(b)
    if b is FALSE:
        return b_not(a)
    if a is b_not(b):
        return FALSE
    return b_and(b_or(b_not(a), b), b_or(a, b_not(b)))


# terms that are never negative, whatever the hypotheses
NONNEG = set()


def _cmp(op, d):
    """d op 0"""
    if d.op == 'const':
        v = cval(d)
        return TRUE if {'lt': v < 0, 'le': v <= 0, 'eq': v == 0}[op] else FALSE
    # normalise positive scale
    if d.op == 'mul' and d.args[0].op == 'const':
        c = cval(d.args[0])
        rest = d.args[1:]
        k = rest[0] if len(rest) == 1 else mk('mul', rest, 'R')
        if op == 'eq':
            d = k
        else:
            d = k if c > 0 else t_neg(k)
    if op == 'eq':
        # canonical sign: leading coefficient positive
        if d.op == 'add':
            f = d.args[0]
            if f.op == 'const' and len(d.args) > 1:
                f = d.args[1]
            if f.op == 'mul' and f.args[0].op == 'const' and cval(f.args[0]) < 0:
                d = t_neg(d)
        elif d.op == 'mul' and d.args[0].op == 'const':
            d = mk('mul', d.args[1:], 'R') if len(d.args) > 2 else d.args[1]
        if d.op == 'sqrt':
            return _cmp('eq', d.args[0])
    if d.op == 'ite' and (is_const(d.args[1]) or is_const(d.args[2])):
        return t_ite(d.args[0], _cmp(op, d.args[1]), _cmp(op, d.args[2]))
    if op == 'le' and d.op == 'mul' and d.args[0] is MONE and len(d.args) == 2 and d.args[1].op in ('sqrt', 'abs'):
        return TRUE
    if op == 'lt' and (d.op in ('sqrt', 'abs') or d in NONNEG):
        return FALSE
    if op == 'le' and d in NONNEG:
        return _cmp('eq', d)
    if d is PI:
        return FALSE
    # counts are integers
    if op == 'lt' and d.op == 'mul' and len(d.args) == 2 and d.args[0] is MONE and d.args[1].op == 'card':
        return mk('le', (t_add(ONE, d),), 'B')
    if op == 'le' and d.op == 'card':
        return b_not(mk('le', (t_sub(ONE, d),), 'B'))
    if op == 'eq' and d.op == 'card':
        return b_not(mk('le', (t_sub(ONE, d),), 'B'))
    return mk(op, (d,), 'B')


def t_lt(a, b):
    return _cmp('lt', t_sub(a, b))


def t_le(a, b):
    return _cmp('le', t_sub(a, b))


def t_eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 'B' and b.sort == 'B':
        return b_iff(a, b)
    if a.op == 'ite' and is_const(a.args[1]) and is_const(a.args[2]) and is_const(b):
        return t_ite(a.args[0], t_eq(a.args[1], b), t_eq(a.args[2], b))
    return _cmp('eq', t_sub(a, b))


# ------------------------------------------------------------ special values

class Val(object):
    __slots__ = ('r', 'nan', 'inf')
    __array_ufunc__ = None
    sort = 'R'

    def __init__(self, r, nan, inf):
        self.r = r
        self.nan = nan
        self.inf = inf

    def __repr__(self):
        return 'Val(%r, nan=%r, inf=%r)' % (self.r, self.nan, self.inf)

    def __add__(self, o):
        return v_add(self, lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        return v_add(self, v_neg(lift(o)))

    def __rsub__(self, o):
        return v_add(lift(o), v_neg(self))

    def __mul__(self, o):
        return v_mul(self, lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return v_div(self, lift(o))

    def __rtruediv__(self, o):
        return v_div(lift(o), self)

    def __neg__(self):
        return v_neg(self)

    def __abs__(self):
        return v_abs(self)

    def conjugate(self):
        return self


NAN = Val(ZERO, TRUE, FALSE)


def mkval(r, nan, inf):
    if nan is FALSE and inf is FALSE:
        return r
    if nan is TRUE:
        return NAN
    return Val(r, nan, b_and(inf, b_not(nan)))


def R(v):
    if isinstance(v, Val):
        return v.r
    if v.sort == 'B':
        return t_ite(v, ONE, ZERO)
    return v


def N(v):
    return v.nan if isinstance(v, Val) else FALSE


def I(v):
    return v.inf if isinstance(v, Val) else FALSE


def isnan(v):
    return N(v)


def isfinite(v):
    return b_not(b_or(N(v), I(v)))


def tosortR(v):
    if isinstance(v, T) and v.sort == 'B':
        return t_ite(v, ONE, ZERO)
    return v


def _collapse(op, r, a, b, spec):
    """result special exactly when ``spec``; NaN or infinite is left open unless an
    operand is NaN"""
    if spec is FALSE:
        return r
    u = mk('ubool', (const(op), R(a), R(b), N(a), N(b), I(a), I(b)), 'B')
    u = b_or(N(a), N(b), u)                 # NaN in, NaN out
    return mkval(r, b_and(spec, u), b_and(spec, b_not(u)))


def v_add(a, b):
    a = tosortR(a)
    b = tosortR(b)
    if isinstance(a, T) and isinstance(b, T):
        return t_add(a, b)
    ra, rb = R(a), R(b)
    ia, ib = I(a), I(b)
    na = b_or(N(a), N(b))
    if ia is FALSE and ib is FALSE:
        return mkval(t_add(ra, rb), na, FALSE)
    if isinstance(a, T) and ib is not FALSE:
        a, b, ra, rb, ia, ib = b, a, rb, ra, ib, ia
    if isinstance(b, T):
        # flagged infinities have an unspecified real part, except literal ones
        return mkval(ra if ia is TRUE else t_add(ra, rb), na, ia)
    return _collapse(1, t_add(ra, rb), a, b, b_or(na, ia, ib))


def v_neg(a):
    a = tosortR(a)
    if isinstance(a, T):
        return t_neg(a)
    return mkval(t_neg(a.r), a.nan, a.inf)


def v_mul(a, b):
    if isinstance(a, T) and isinstance(b, T):
        if a.sort == 'B' and b.sort == 'B':
            return b_and(a, b)
        return t_mul(tosortR(a), tosortR(b))
    a = tosortR(a)
    b = tosortR(b)
    ra, rb = R(a), R(b)
    ia, ib = I(a), I(b)
    if ia is FALSE and ib is FALSE:
        return mkval(t_mul(ra, rb), b_or(N(a), N(b)), FALSE)
    if isinstance(a, T):
        a, b, ra, rb, ia, ib = b, a, rb, ra, ib, ia
    if isinstance(b, T) and b.op == 'const' and cval(b) != 0:
        return mkval(t_mul(ra, rb), a.nan, ia)
    return _collapse(2, t_mul(ra, rb), a, b, b_or(N(a), N(b), ia, ib))


def t_nonzero(b):
    if b.op == 'const':
        return cval(b) != 0
    if b is PI:
        return True
    if HOOK['nonzero'] is not None:
        return HOOK['nonzero'](b)
    return False


def v_div(a, b):
    a = tosortR(a)
    b = tosortR(b)
    ra, rb = R(a), R(b)
    ia, ib = I(a), I(b)
    if isinstance(a, T) and isinstance(b, T):
        if t_nonzero(b):
            return t_div(a, b)
        z = t_eq(b, ZERO)
        return mkval(t_div(a, b), b_and(z, t_eq(a, ZERO)),
                     b_and(z, b_not(t_eq(a, ZERO))))
    if ib is not FALSE:
        if ib is TRUE and isinstance(a, T):
            return ZERO
        raise Unsupported('division by possibly infinite value')
    z = FALSE if t_nonzero(rb) else t_eq(rb, ZERO)
    if ia is FALSE and z is FALSE:
        return mkval(t_div(ra, rb), b_or(N(a), N(b)), FALSE)
    return _collapse(3, t_div(ra, rb), a, b, b_or(N(a), N(b), ia, z))


def t_abs(a):
    if a.op == 'const':
        return const(abs(cval(a)))
    if a.op == 'div':
        return t_div(t_abs(a.args[0]), t_abs(a.args[1]))
    if a.op in ('abs', 'sqrt'):
        return a
    if a.op == 'mul' and a.args[0].op == 'const':
        rest = a.args[1:]
        k = rest[0] if len(rest) == 1 else mk('mul', rest, 'R')
        return t_mul(const(abs(cval(a.args[0]))), t_abs(k))
    if HOOK['nonneg'] is not None:
        s = HOOK['nonneg'](a)
        if s == 1:
            return a
        if s == -1:
            return t_neg(a)
    # canonical sign
    if a.op == 'add':
        f = a.args[0]
        if f.op == 'const' and len(a.args) > 1:
            f = a.args[1]
        if f.op == 'mul' and f.args[0].op == 'const' and cval(f.args[0]) < 0:
            a = t_neg(a)
    return mk('abs', (a,), 'R')


def v_abs(a):
    a = tosortR(a)
    if isinstance(a, T):
        return t_abs(a)
    return mkval(t_abs(a.r), a.nan, a.inf)


def v_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, T) and isinstance(b, T):
        if a.sort != b.sort:
            a, b = tosortR(a), tosortR(b)
        return t_ite(c, a, b)
    a, b = tosortR(a), tosortR(b)
    ra, rb = R(a), R(b)
    # don't-care real part when definitely special
    if N(a) is TRUE:
        r = rb
    elif N(b) is TRUE:
        r = ra
    else:
        r = t_ite(c, ra, rb)
    return mkval(r, t_ite(c, N(a), N(b)), t_ite(c, I(a), I(b)))


def _symbolic_inf(a, b):
    for x in (a, b):
        i = I(x)
        if i is not FALSE and not (i is TRUE and x.r.op == 'const'):
            return True
    return False


def v_lt(a, b):
    a, b = tosortR(a), tosortR(b)
    if isinstance(a, T) and isinstance(b, T):
        return t_lt(a, b)
    ra, rb, ia, ib = R(a), R(b), I(a), I(b)
    ok = b_not(b_or(N(a), N(b)))
    base = t_lt(ra, rb)
    if _symbolic_inf(a, b):
        base = t_ite(b_or(ia, ib), mk('ubool', (const(4), ra, rb, N(a), N(b), ia, ib), 'B'), base)
    elif ia is not FALSE or ib is not FALSE:
        # -inf < everything but -inf ; +inf greater
        base = t_ite(ia, t_ite(ib, b_and(t_lt(ra, ZERO), t_lt(ZERO, rb)), t_lt(ra, ZERO)),
                     t_ite(ib, t_lt(ZERO, rb), base))
    return b_and(ok, base)


def v_le(a, b):
    a, b = tosortR(a), tosortR(b)
    if isinstance(a, T) and isinstance(b, T):
        return t_le(a, b)
    ra, rb, ia, ib = R(a), R(b), I(a), I(b)
    ok = b_not(b_or(N(a), N(b)))
    base = t_le(ra, rb)
    if _symbolic_inf(a, b):
        base = t_ite(b_or(ia, ib), mk('ubool', (const(5), ra, rb, N(a), N(b), ia, ib), 'B'), base)
    elif ia is not FALSE or ib is not FALSE:
        base = t_ite(ia, t_ite(ib, b_or(t_lt(ra, ZERO), t_lt(ZERO, rb)), t_lt(ra, ZERO)),
                     t_ite(ib, t_lt(ZERO, rb), base))
    return b_and(ok, base)


def v_eq(a, b):
    if isinstance(a, T) and isinstance(b, T):
        if a.sort == 'B' and b.sort == 'B':
            return b_iff(a, b)
        return t_eq(tosortR(a), tosortR(b))
    a, b = tosortR(a), tosortR(b)
    ra, rb, ia, ib = R(a), R(b), I(a), I(b)
    ok = b_not(b_or(N(a), N(b)))
    base = t_eq(ra, rb)
    if _symbolic_inf(a, b):
        base = t_ite(b_or(ia, ib), mk('ubool', (const(6), ra, rb, N(a), N(b), ia, ib), 'B'), base)
    elif ia is not FALSE or ib is not FALSE:
        base = t_ite(ia, b_and(ib, b_iff(t_lt(ra, ZERO), t_lt(rb, ZERO))),
                     b_and(b_not(ib), base))
    return b_and(ok, base)


def v_same(a, b):
    """Equality that also identifies NaN with NaN (specification equality)."""
    if isinstance(a, T) and isinstance(b, T):
        return v_eq(a, b)
    return b_or(b_and(N(a), N(b)), b_and(b_not(N(a)), b_not(N(b)), v_eq(a, b)))


# ------------------------------------------------------- elementary functions

def _ratpi(t):
    """t == q*PI ? return q"""
    if t is ZERO:
        return Fraction(0)
    if t is PI:
        return Fraction(1)
    if t.op == 'mul' and len(t.args) == 2 and t.args[0].op == 'const' and t.args[1] is PI:
        return cval(t.args[0])
    return None


def _split_sum(t):
    return t.args if t.op == 'add' else (t,)


def sincos(x):
    """(sin x, cos x) with addition theorems applied to sums."""
    q = _ratpi(x)
    if q is not None:
        q = q % 2
        tab = {Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1),
               Fraction(3, 2): (-1, 0)}
        if q in tab:
            return const(tab[q][0]), const(tab[q][1])
        h = Fraction(1, 2)
        s3 = t_mul(const(h), t_sqrt(const(3)))
        s2 = t_mul(const(h), t_sqrt(const(2)))
        ref = {Fraction(1, 6): (const(h), s3), Fraction(1, 4): (s2, s2), Fraction(1, 3): (s3, const(h))}
        for base, (s, c) in ref.items():
            if q == base:
                return s, c
            if q == 1 - base:
                return s, t_neg(c)
            if q == 1 + base:
                return t_neg(s), t_neg(c)
            if q == 2 - base:
                return t_neg(s), c
    if x.op == 'add':
        s, c = ZERO, ONE
        for part in x.args:
            sp, cp = sincos(part)
            s, c = t_add(t_mul(s, cp), t_mul(c, sp)), t_sub(t_mul(c, cp), t_mul(s, sp))
        return s, c
    coef = Fraction(1)
    k = x
    if x.op == 'mul' and x.args[0].op == 'const':
        coef = cval(x.args[0])
        rest = x.args[1:]
        k = rest[0] if len(rest) == 1 else mk('mul', rest, 'R')
    if coef < 0:
        s, c = sincos(t_mul(const(-coef), k))
        return t_neg(s), c
    if coef.denominator == 1 and 1 < coef <= 4:
        s1, c1 = sincos(k)
        s, c = s1, c1
        for _ in range(int(coef) - 1):
            s, c = t_add(t_mul(s, c1), t_mul(c, s1)), t_sub(t_mul(c, c1), t_mul(s, s1))
        return s, c
    if coef == 1:
        if k.op == 'acos':
            u = k.args[0]
            return t_sqrt(t_sub(ONE, t_mul(u, u))), u
        if k.op == 'asin':
            u = k.args[0]
            return u, t_sqrt(t_sub(ONE, t_mul(u, u)))
        if k.op == 'atan2':
            y, xx = k.args
            h = t_sqrt(t_add(t_mul(y, y), t_mul(xx, xx)))
            nz = t_eq(h, ZERO)
            if t_nonzero(h):
                nz = FALSE
            return t_ite(nz, ZERO, t_div(y, h)), t_ite(nz, ONE, t_div(xx, h))
        if k.op == 'atan':
            u = k.args[0]
            h = t_sqrt(t_add(ONE, t_mul(u, u)))
            return t_div(u, h), t_div(ONE, h)
        if k.op == 'ite':
            s1, c1 = sincos(k.args[1])
            s2, c2 = sincos(k.args[2])
            return t_ite(k.args[0], s1, s2), t_ite(k.args[0], c1, c2)
        if k.op == 'mul' and len(k.args) == 2 and k.args[0].op == 'floor' and k.args[1] is PI:
            pass
    if k.op == 'mul' and PI in k.args and all(f is PI or f.op == 'floor' for f in k.args) \
            and (coef * 1) % 2 == 0:
        # even multiple of pi times integers
        return ZERO, ONE
    return mk('sin', (x,), 'R'), mk('cos', (x,), 'R')


def t_sqrt(a):
    if a.op == 'const':
        v = cval(a)
        if v >= 0:
            n, d = v.numerator, v.denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return const(Fraction(rn, rd))
            # pull out square factors for small numbers
            m = n * d
            k = 1
            f = 2
            while f * f <= m and f < 1000:
                while m % (f * f) == 0:
                    m //= f * f
                    k *= f
                f += 1
            return t_mul(const(Fraction(k, d)), mk('sqrt', (const(m),), 'R'))
    if HOOK['canon_sqrt'] is not None:
        r = HOOK['canon_sqrt'](a)
        if r is not None:
            return r
    return mk('sqrt', (a,), 'R')


def v_sqrt(a):
    a = tosortR(a)
    r = R(a)
    sgn = HOOK['nonneg'](r) if HOOK['nonneg'] is not None else 0
    neg = FALSE if sgn == 1 else t_lt(r, ZERO)
    out = t_sqrt(r)
    if sgn == 1 and out.op == 'sqrt' and HOOK.get('synsign') is not None and HOOK['synsign'](r) > 0:
        # the canonical radicand equals r, which is never negative
        NONNEG.add(out.args[0])
    return mkval(out, b_or(N(a), neg), b_and(I(a), b_not(neg)) if I(a) is not FALSE else FALSE)


def unary(op):
    def f(a):
        a = tosortR(a)
        if op == 'sin':
            out = sincos(R(a))[0]
        elif op == 'cos':
            out = sincos(R(a))[1]
        elif op == 'tan':
            s, c = sincos(R(a))
            out = t_div(s, c)
        else:
            out = t_unary(op, R(a))
        if isinstance(a, T):
            return out
        return mkval(out, b_or(a.nan, a.inf), FALSE)
    return f


def t_unary(op, r):
    if op in ('exp',):
        if r is ZERO:
            return ONE
        if r.op == 'log':
            return r.args[0]
    if op == 'log' and r is ONE:
        return ZERO
    if op == 'floor':
        if r.op == 'const':
            return const(math.floor(cval(r)))
        if r.op == 'floor':
            return r
        if r.op == 'add' and r.args[0].op == 'const' or (r.op == 'add' and any(x.op == 'const' for x in r.args)):
            c = sum((cval(x) for x in r.args if x.op == 'const'), Fraction(0))
            k = math.floor(c)
            if k != 0:
                return t_add(const(k), t_unary('floor', t_sub(r, const(k))))
    if op in ('atan', 'asin') and r is ZERO:
        return ZERO
    if op == 'acos':
        if r is ONE:
            return ZERO
        if r is MONE:
            return PI
        if r is ZERO:
            return t_mul(const(Fraction(1, 2)), PI)
    return mk(op, (r,), 'R')


def v_domain(op, a):
    """acos/asin/log: NaN outside their domain."""
    a = tosortR(a)
    r = R(a)
    out = t_unary(op, r)
    if op in ('acos', 'asin'):
        bad = b_or(t_lt(r, MONE), t_lt(ONE, r))
        if HOOK['nonneg'] is not None and bad is not FALSE:
            if HOOK['nonneg'](t_sub(ONE, t_mul(r, r))) == 1:
                bad = FALSE
    else:
        bad = t_le(r, ZERO)
    if isinstance(a, T) and bad is FALSE:
        return out
    return mkval(out, b_or(N(a), I(a), bad), FALSE)


def v_atan2(y, x):
    y, x = tosortR(y), tosortR(x)
    ry, rx = R(y), R(x)
    if ry.op == 'const' and rx.op == 'const':
        if ry is ZERO:
            out = ZERO if cval(rx) >= 0 else PI
        elif rx is ZERO:
            out = t_mul(const(Fraction(1 if cval(ry) > 0 else -1, 2)), PI)
        else:
            out = mk('atan2', (ry, rx), 'R')
    else:
        out = mk('atan2', (ry, rx), 'R')
    if isinstance(y, T) and isinstance(x, T):
        return out
    return mkval(out, b_or(N(y), N(x), I(x), I(y)), FALSE)


def int_valued(t):
    if t.op == 'const':
        return cval(t).denominator == 1
    if t.op in ('floor', 'rownum'):
        return True
    if t.op in ('mul', 'add'):
        return all(int_valued(x) for x in t.args)
    return False


def drop_multiples(r, b):
    """remove addends of r that are integer multiples of b (r mod b unchanged)"""
    cb, fb = Fraction(1), []
    for f in (b.args if b.op == 'mul' else (b,)):
        if f.op == 'const':
            cb *= cval(f)
        else:
            fb.append(f)
    keep = []
    for t in (r.args if r.op == 'add' else (r,)):
        c, fs = Fraction(1), []
        for f in (t.args if t.op == 'mul' else (t,)):
            if f.op == 'const':
                c *= cval(f)
            else:
                fs.append(f)
        ok = True
        for f in fb:
            if f in fs:
                fs.remove(f)
            else:
                ok = False
        if ok and (c / cb).denominator == 1 and all(int_valued(f) for f in fs):
            continue
        keep.append(t)
    if len(keep) == len(r.args if r.op == 'add' else (r,)):
        return r
    o = ZERO
    for t in keep:
        o = t_add(o, t)
    return o


def v_mod(a, b):
    a, b = tosortR(a), tosortR(b)
    if not (isinstance(b, T)):
        raise Unsupported('mod by special')
    if not t_nonzero(b):
        raise Unsupported('mod by possibly zero')
    r = R(a)
    if r.op == 'const' and b.op == 'const':
        out = const(cval(r) - cval(b) * math.floor(cval(r) / cval(b)))
    else:
        q = t_div(r, b)
        qc = _ratpi_ratio(r, b)
        if qc is not None:
            out = t_mul(const(qc - math.floor(qc)), b)
        else:
            r2 = drop_multiples(r, b)
            if r2 is not r:
                qc = _ratpi_ratio(r2, b)
                if qc is not None or r2 is ZERO:
                    qc = qc or Fraction(0)
                    o2 = t_mul(const(qc - math.floor(qc)), b)
                    return o2 if isinstance(a, T) else mkval(o2, b_or(a.nan, a.inf), FALSE)
                r, q = r2, t_div(r2, b)
            out = t_sub(r, t_mul(b, t_unary('floor', q)))
    if isinstance(a, T):
        return out
    return mkval(out, b_or(a.nan, a.inf), FALSE)


def _ratpi_ratio(r, b):
    p, q = _ratpi(r), _ratpi(b)
    if p is not None and q:
        return p / q
    return None


def v_pow(a, n):
    a = tosortR(a)
    if isinstance(n, T) and n.op == 'const':
        e = cval(n)
        if e.denominator == 1 and abs(e) <= 12:
            e = int(e)
            if e == 0:
                return ONE
            r = a
            for _ in range(abs(e) - 1):
                r = v_mul(r, a)
            if e < 0:
                r = v_div(ONE, r)
            return r
        if e == Fraction(1, 2):
            return v_sqrt(a)
        if e == Fraction(-1, 2):
            return v_div(ONE, v_sqrt(a))
    if isinstance(a, T) and isinstance(n, T):
        return mk('pow', (a, n), 'R')
    raise Unsupported('power')


# ----------------------------------------------------------------- traversal

def subst_row(t, mapping, memo=None):
    """Substitute row variables; aggregate nodes are closed terms."""
    if isinstance(t, Val):
        return mkval(subst_row(t.r, mapping, memo), subst_row(t.nan, mapping, memo),
                     subst_row(t.inf, mapping, memo))
    if memo is None:
        memo = {}
    return _subst(t, mapping, {}, memo)


def subst_bool(t, bmap, memo=None):
    if memo is None:
        memo = {}
    return _subst(t, {}, bmap, memo)


def _subst(t, rmap, bmap, memo):
    if t in memo:
        return memo[t]
    if t in bmap:
        r = bmap[t]
    elif t.op == 'var':
        name, row, idx, sort = t.args
        r = t
        if row is not None:
            nr = _subst_rowterm(row, rmap)
            if nr is not row:
                r = var(name, nr, idx, sort)
    elif t.op == 'row':
        r = rmap.get(t, t)
    elif t.op == 'rownum':
        nr = _subst_rowterm(t.args[0], rmap)
        r = mk('rownum', (nr,), 'R')
    elif t.op in ('agg', 'card'):
        r = t
    elif not t.args or t.op == 'const':
        r = t
    else:
        new = tuple(_subst(a, rmap, bmap, memo) for a in t.args)
        r = t if all(x is y for x, y in zip(new, t.args)) else rebuild(t.op, new)
    memo[t] = r
    return r


def _subst_rowterm(row, rmap):
    if isinstance(row, tuple):
        return tuple(rmap.get(x, x) for x in row)
    return rmap.get(row, row)


def rebuild(op, a):
    if op == 'add':
        return _sum(a)
    if op == 'mul':
        r = a[0]
        for x in a[1:]:
            r = t_mul(r, x)
        return r
    if op == 'div':
        return t_div(*a)
    if op == 'ite':
        return t_ite(*a)
    if op == 'not':
        return b_not(a[0])
    if op == 'and':
        return b_and(*a)
    if op == 'or':
        return b_or(*a)
    if op in ('lt', 'le', 'eq'):
        return _cmp(op, a[0])
    if op == 'abs':
        return t_abs(a[0])
    if op == 'sqrt':
        return t_sqrt(a[0])
    if op == 'sin':
        return sincos(a[0])[0]
    if op == 'cos':
        return sincos(a[0])[1]
    if op in ('exp', 'log', 'floor', 'acos', 'asin', 'atan'):
        return t_unary(op, a[0])
    if op in ('atan2', 'pow', 'uf'):
        return mk(op, a, 'R')
    if op == 'ubool':
        return mk(op, a, 'B')
    if op == 'ufapp':
        return mk(op, a, 'R')
    raise Unsupported('rebuild ' + op)


def subterms(ts):
    seen = set()
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ('const', 'var', 'row', 'pi', 'rownum', 'agg', 'aggb'):
            continue
        for a in t.args:
            if isinstance(a, T):
                stack.append(a)
    return seen


def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if t.op == 'const':
        return str(t.args[0])
    if t.op == 'var':
        n, row, idx, _ = t.args
        s = n
        if row is not None:
            s += '[' + (row.args[0] if isinstance(row, T) else ','.join(r.args[0] for r in row)) + ']'
        if idx:
            s += '[' + ','.join(map(str, idx)) + ']'
        return s
    if t.op == 'row':
        return t.args[0]
    if t.op in ('pi', 'true', 'false'):
        return t.op
    if depth == 0:
        return '...'
    if t.op == 'add':
        return '(' + ' + '.join(show(a, depth - 1) for a in t.args) + ')'
    if t.op == 'mul':
        return '*'.join(show(a, depth - 1) for a in t.args)
    if t.op in ('lt', 'le', 'eq'):
        return '(%s %s 0)' % (show(t.args[0], depth - 1), {'lt': '<', 'le': '<=', 'eq': '=='}[t.op])
    return '%s(%s)' % (t.op, ', '.join(show(a, depth - 1) for a in t.args))


def diff(t, v):
    """derivative of t with respect to the leaf v"""
    memo = {}

    def go(t):
        if t is v:
            return ONE
        r = memo.get(t)
        if r is None:
            r = memo[t] = rule(t)
        return r

    def rule(t):
        op, a = t.op, t.args
        if op in ('const', 'var', 'row', 'pi', 'rownum', 'card'):
            return ZERO
        if op == 'add':
            return _sum([go(x) for x in a])
        if op == 'mul':
            r = ZERO
            for i, x in enumerate(a):
                p = go(x)
                for j, y in enumerate(a):
                    if j != i:
                        p = t_mul(p, y)
                r = t_add(r, p)
            return r
        if op == 'div':
            d1, d2 = go(a[0]), go(a[1])
            return t_sub(t_div(d1, a[1]), t_div(t_mul(a[0], d2), t_mul(a[1], a[1])))
        d = [go(x) for x in a] if op != 'ite' else [None] + [go(x) for x in a[1:]]
        if all(x is ZERO for x in d[(1 if op == 'ite' else 0):]):
            return ZERO
        if op == 'sqrt':
            return t_div(d[0], t_mul(const(2), t))
        if op == 'sin':
            return t_mul(d[0], sincos(a[0])[1])
        if op == 'cos':
            return t_neg(t_mul(d[0], sincos(a[0])[0]))
        if op == 'exp':
            return t_mul(d[0], t)
        if op == 'ite':
            return t_ite(a[0], d[1], d[2])
        if op == 'acos':
            return t_neg(t_div(d[0], t_sqrt(t_sub(ONE, t_mul(a[0], a[0])))))
        raise Unsupported('derivative of ' + op)
    return go(t)
