"""numpy front end for symbolic execution: ufuncs, array functions, and a
module proxy (``np`` inside the code under verification) whose creation and
random functions return symbolic arrays."""
import builtins
import math
import numpy as np
import astropy.units
from . import terms as tm
from . import symarr as sa
from .terms import T, Val, Unsupported, TRUE, FALSE, ZERO, ONE
from .symarr import SymArray, Dim, asym, elementwise, _obj, ShapeError, axis_eq, ctx


def has_sym(x, depth=0):
    if isinstance(x, (SymArray, T, Val)) or hasattr(x, '_to_sym'):
        return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(has_sym(y) for y in x.ravel())
    return False


# -------------------------------------------------------------------- ufuncs

def _sign(x):
    x = tm.tosortR(x)
    if isinstance(x, T):
        return tm.t_ite(tm.t_lt(ZERO, x), ONE, tm.t_ite(tm.t_lt(x, ZERO), tm.MONE, ZERO))
    return tm.mkval(tm.t_ite(tm.t_lt(ZERO, x.r), ONE, tm.t_ite(tm.t_lt(x.r, ZERO), tm.MONE, ZERO)),
                    x.nan, FALSE)


def _max(a, b):
    return tm.v_ite(tm.b_or(tm.isnan(a), tm.b_and(tm.b_not(tm.isnan(b)), tm.v_le(b, a))), a, b)


def _min(a, b):
    return tm.v_ite(tm.b_or(tm.isnan(a), tm.b_and(tm.b_not(tm.isnan(b)), tm.v_le(a, b))), a, b)


def _ceil(x):
    x = tm.tosortR(x)
    if not isinstance(x, T):
        raise Unsupported('ceil of special')
    return tm.t_neg(tm.t_unary('floor', tm.t_neg(x)))


def _floor(x):
    x = tm.tosortR(x)
    if not isinstance(x, T):
        return tm.mkval(tm.t_unary('floor', x.r), x.nan, x.inf)
    return tm.t_unary('floor', x)


def _hypot(a, b):
    return tm.v_sqrt(tm.v_add(tm.v_mul(a, a), tm.v_mul(b, b)))


def _scale(c):
    return lambda x: tm.v_mul(c, x)


D2R = tm.t_mul(tm.const(1) if False else tm.const(tm.Fraction(1, 180)), tm.PI)
R2D = tm.t_div(tm.const(180), tm.PI)

UF = {
    'add': (tm.v_add, None), 'subtract': (sa.v_sub, None), 'multiply': (tm.v_mul, None),
    'divide': (tm.v_div, 'f'), 'true_divide': (tm.v_div, 'f'), 'negative': (tm.v_neg, None),
    'positive': (lambda x: x, None), 'absolute': (tm.v_abs, None), 'fabs': (tm.v_abs, 'f'),
    'sqrt': (tm.v_sqrt, 'f'), 'square': (lambda x: tm.v_mul(x, x), None),
    'sin': (tm.unary('sin'), 'f'), 'cos': (tm.unary('cos'), 'f'), 'tan': (tm.unary('tan'), 'f'),
    'arctan': (tm.unary('atan'), 'f'), 'exp': (tm.unary('exp'), 'f'),
    'arccos': (lambda x: tm.v_domain('acos', x), 'f'),
    'arcsin': (lambda x: tm.v_domain('asin', x), 'f'),
    'log': (lambda x: tm.v_domain('log', x), 'f'),
    'arctan2': (tm.v_atan2, 'f'), 'remainder': (tm.v_mod, None), 'mod': (tm.v_mod, None),
    'floor': (_floor, 'f'), 'ceil': (_ceil, 'f'), 'floor_divide': (sa.v_floordiv, None),
    'power': (tm.v_pow, None), 'float_power': (tm.v_pow, 'f'), 'hypot': (_hypot, 'f'),
    'sign': (_sign, None), 'maximum': (_max, None), 'minimum': (_min, None),
    'deg2rad': (_scale(D2R), 'f'), 'radians': (_scale(D2R), 'f'),
    'rad2deg': (_scale(R2D), 'f'), 'degrees': (_scale(R2D), 'f'),
    'less': (tm.v_lt, 'b'), 'less_equal': (tm.v_le, 'b'),
    'greater': (lambda a, b: tm.v_lt(b, a), 'b'), 'greater_equal': (lambda a, b: tm.v_le(b, a), 'b'),
    'equal': (tm.v_eq, 'b'), 'not_equal': (sa.v_ne, 'b'),
    'logical_and': (lambda a, b: tm.b_and(sa.tobool(a), sa.tobool(b)), 'b'),
    'logical_or': (lambda a, b: tm.b_or(sa.tobool(a), sa.tobool(b)), 'b'),
    'logical_not': (lambda a: tm.b_not(sa.tobool(a)), 'b'),
    'logical_xor': (lambda a, b: tm.b_not(tm.b_iff(sa.tobool(a), sa.tobool(b))), 'b'),
    'isnan': (tm.isnan, 'b'), 'isfinite': (tm.isfinite, 'b'), 'isinf': (tm.I, 'b'),
    'conjugate': (lambda x: x, None),
}
UF['bitwise_and'] = UF['logical_and']
UF['bitwise_or'] = UF['logical_or']
UF['bitwise_xor'] = UF['logical_xor']


def apply_uf(name, inputs):
    if name == 'invert':
        return ~asym(inputs[0])
    if name == 'matmul':
        return f_matmul(*inputs)
    if name not in UF:
        raise Unsupported('ufunc ' + name)
    f, kind = UF[name]
    arrs = [asym(x) for x in inputs]
    if any(a is NotImplemented for a in arrs):
        return NotImplemented
    if name.startswith('bitwise') and any(a.kind != 'b' for a in arrs):
        raise Unsupported('bitwise operation on numbers')
    return elementwise(f, arrs, kind)


def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    kw.pop('casting', None)
    kw.pop('dtype', None)
    if where is not True:
        raise Unsupported('ufunc where=')
    if method == '__call__':
        if out is None and any(isinstance(x, astropy.units.Quantity) for x in inputs):
            from . import load, symq
            r = symq.handle(load.shims()['np'], name, inputs, {})
            if r is not None:
                return r
        r = apply_uf(name, inputs)
        if r is NotImplemented:
            return r
        if out is not None:
            o = out[0]
            if not isinstance(o, SymArray):
                if hasattr(o, '_to_sym'):
                    o._to_sym()[...] = r
                    return o
                raise Unsupported('ufunc result into a concrete array')
            o[...] = r
            return o
        return r
    if method == 'reduce':
        red = {'add': f_sum, 'multiply': f_prod, 'maximum': f_max, 'minimum': f_min,
               'logical_and': f_all, 'logical_or': f_any, 'bitwise_or': f_any, 'bitwise_and': f_all}
        if name in red:
            kw.pop('initial', None)
            return red[name](inputs[0], **kw)
    if method == 'accumulate' and name == 'add':
        return f_cumsum(*inputs)
    if method == 'outer':
        a, b = asym(inputs[0]), asym(inputs[1])
        return apply_uf(name, (a.reshape(a.shape + (1,) * b.ndim), b))
    raise Unsupported('ufunc method %s.%s' % (name, method))


# ---------------------------------------------------------------- reductions

def _norm_axis(axis, n):
    if axis is None:
        return tuple(range(n))
    if isinstance(axis, (tuple, list)):
        return tuple(a % n for a in axis)
    if not -n <= axis < builtins.max(n, 1):
        raise np.exceptions.AxisError('axis %d is out of bounds for array of dimension %d' % (axis, n))
    return (axis % n if n else 0,)


def reduce_concrete(x, axes, f, init):
    """reduce payload over concrete axes"""
    p = x.p
    keep = [i for i in range(p.ndim) if i not in axes]
    q = np.transpose(p, keep + list(axes))
    out = np.empty([p.shape[i] for i in keep], dtype=object)
    for i in np.ndindex(*out.shape):
        acc = init
        for v in q[i].ravel() if isinstance(q[i], np.ndarray) else [q[i]]:
            acc = v if acc is None else f(acc, v)
        out[i] = acc
    return SymArray(out, [x.axes[i] for i in keep], x.kind)


def reduce(x, axis, keepdims, fconc, init, fdim, kind):
    x = asym(x)
    axes = _norm_axis(axis, x.ndim)
    dims = [i for i in axes if isinstance(x.axes[i], Dim)]
    conc = [i for i in axes if i not in dims]
    if x.ndim == 0:
        conc = []
    r = x
    inner = [d for d in x.axes if isinstance(d, Dim)]
    if inner:
        ctx().push_dims(inner)
    try:
        if conc or x.ndim == 0:
            sizes = [x.axes[i] for i in conc]
            if 0 in sizes and init is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            r = reduce_concrete(x, tuple(conc), fconc, init)
    finally:
        if inner:
            ctx().pop_dims(len(inner))
    for _ in dims:
        k = [i for i, a in enumerate(r.axes) if isinstance(a, Dim) and a is x.axes[dims[0]]]
        if len(dims) > 1:
            raise Unsupported('reduction over two symbolic axes')
        i = k[0]
        d = r.axes[i]
        out = np.empty(r.p.shape[:i] + r.p.shape[i + 1:], dtype=object)
        for j in np.ndindex(*out.shape):
            out[j] = fdim(d, r.p[j[:i] + (0,) + j[i:]])
        r = SymArray(out, r.axes[:i] + r.axes[i + 1:], r.kind)
    r = SymArray(r.p, r.axes, kind(x.kind) if callable(kind) else kind)
    if keepdims:
        for i in sorted(axes):
            r = f_expand_dims(r, i)
    return r


def sum_dim(d, body):
    if isinstance(body, T) and body.sort == 'B':
        return d.sub(body).card()
    if isinstance(body, Val):
        raise Unsupported('sum of possibly special values over symbolic axis')
    return ctx().agg_sum(d, body)


def any_dim(d, body):
    return ctx().agg_any(d, sa.tobool(body))


def all_dim(d, body):
    return tm.b_not(ctx().agg_any(d, tm.b_not(sa.tobool(body))))


def f_sum(x, axis=None, keepdims=False, dtype=None, out=None, **k):
    x = asym(x)
    if x.kind == 'b' and not any(isinstance(a, Dim) for a in x.axes):
        x = SymArray(sa.convert(x.p, 'b', 'i'), x.axes, 'i')
    return tidy(reduce(x, axis, keepdims, tm.v_add, ZERO, sum_dim, lambda k: 'f' if k == 'f' else 'i'))


def tidy(a):
    if a.kind != 'f':
        return a
    c = ctx()
    dims = [d for d in a.axes if isinstance(d, Dim)]
    c.push_dims(dims)
    try:
        p = np.empty(a.p.shape, dtype=object)
        for i in np.ndindex(*p.shape):
            p[i] = c.tidy(a.p[i])
    finally:
        c.pop_dims(len(dims))
    r = SymArray(p, a.axes, a.kind)
    return r


def f_prod(x, axis=None, keepdims=False, **k):
    def nodim(d, b):
        raise Unsupported('product over symbolic axis')
    return reduce(x, axis, keepdims, tm.v_mul, ONE, nodim, lambda k: 'f' if k == 'f' else 'i')


def f_any(x, axis=None, keepdims=False, **k):
    return reduce(x, axis, keepdims, lambda a, b: tm.b_or(sa.tobool(a), sa.tobool(b)), FALSE, any_dim, 'b')


def f_all(x, axis=None, keepdims=False, **k):
    return reduce(x, axis, keepdims, lambda a, b: tm.b_and(sa.tobool(a), sa.tobool(b)), TRUE, all_dim, 'b')


def f_max(x, axis=None, keepdims=False, **k):
    return reduce(x, axis, keepdims, _max, None, lambda d, b: ctx().agg_extreme(d, b, 1), lambda k: k)


def f_min(x, axis=None, keepdims=False, **k):
    return reduce(x, axis, keepdims, _min, None, lambda d, b: ctx().agg_extreme(d, b, -1), lambda k: k)


def f_mean(x, axis=None, keepdims=False, **k):
    x = asym(x)
    axes = _norm_axis(axis, x.ndim)
    n = ONE
    for i in axes:
        a = x.axes[i]
        n = tm.v_mul(n, tm.const(a) if isinstance(a, int) else a.card())
    s = f_sum(x, axis=axis, keepdims=keepdims)
    return s / SymArray(_obj(n), (), 'i')


def f_average(x, axis=None, weights=None, **k):
    x = asym(x)
    if weights is None:
        return f_mean(x, axis)
    w = asym(weights)
    return f_sum(x * w, axis=axis) / f_sum(w, axis=axis)


def f_cumsum(x, axis=None, **k):
    x = asym(x)
    if axis is None:
        x = f_reshape(x, (-1,))
        axis = 0
    axis %= x.ndim
    if isinstance(x.axes[axis], Dim):
        raise Unsupported('cumsum over symbolic axis')
    out = np.empty(x.p.shape, dtype=object)
    p = np.moveaxis(x.p, axis, 0)
    o = np.moveaxis(out, axis, 0)
    acc = None
    for i in range(p.shape[0]):
        if acc is None:
            acc = p[i].copy() if isinstance(p[i], np.ndarray) else p[i]
        elif isinstance(acc, np.ndarray):
            n = np.empty(acc.shape, dtype=object)
            for j in np.ndindex(*acc.shape):
                n[j] = tm.v_add(acc[j], p[i][j])
            acc = n
        else:
            acc = tm.v_add(acc, p[i])
        o[i] = acc
    return SymArray(out, x.axes, 'i' if x.kind == 'b' else x.kind)


def f_argmax(x, axis=None, **k):
    return _argext(x, axis, lambda new, best: tm.v_lt(best, new))


def f_argmin(x, axis=None, **k):
    return _argext(x, axis, lambda new, best: tm.v_lt(new, best))


def _argext(x, axis, better):
    x = asym(x)
    if axis is None:
        x = f_reshape(x, (-1,))
        axis = 0
    axis %= x.ndim
    if isinstance(x.axes[axis], Dim):
        raise Unsupported('argmax over symbolic axis')
    p = np.moveaxis(x.p, axis, 0)
    out = np.empty(p.shape[1:], dtype=object)
    for j in np.ndindex(*out.shape):
        best = tm.tosortR(p[(0,) + j])
        ind = ZERO
        for i in range(1, p.shape[0]):
            v = tm.tosortR(p[(i,) + j])
            if isinstance(v, Val) or isinstance(best, Val):
                # numpy: the first NaN wins; unsupported unless never special
                raise Unsupported('argmax of possibly special values')
            c = better(v, best)
            best = tm.v_ite(c, v, best)
            ind = tm.t_ite(c, tm.const(i), ind)
        out[j] = ind
    return SymArray(out, [a for i, a in enumerate(x.axes) if i != axis], 'i')


# ------------------------------------------------------------ linear algebra

def f_dot(a, b, out=None):
    a, b = asym(a), asym(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim == 1:
        return _contract(a, b, a.ndim - 1, 0)
    return _contract(a, b, a.ndim - 1, b.ndim - 2)


def _contract(a, b, i, j):
    x, y = a.axes[i], b.axes[j]
    if not axis_eq(x, y):
        raise ShapeError('shapes not aligned: %r %r' % (a.axes, b.axes))
    if isinstance(x, Dim):
        raise Unsupported('contraction over symbolic axis')
    pa = np.moveaxis(a.p, i, -1)
    pb = np.moveaxis(b.p, j, 0)
    sa_, sb_ = pa.shape[:-1], pb.shape[1:]
    axes = tuple(q for n, q in enumerate(a.axes) if n != i) + tuple(q for n, q in enumerate(b.axes) if n != j)
    dims = [d for d in axes if isinstance(d, Dim)]
    if len(set(d.base for d in dims)) != len(dims):
        raise Unsupported('outer product over one symbolic dimension')
    out = np.empty(sa_ + sb_, dtype=object)
    ctx().push_dims(dims)
    try:
        for m in np.ndindex(*sa_):
            for n in np.ndindex(*sb_):
                acc = ZERO
                for k in range(pa.shape[-1]):
                    acc = tm.v_add(acc, tm.v_mul(pa[m + (k,)], pb[(k,) + n]))
                out[m + n] = ctx().tidy(acc)
    finally:
        ctx().pop_dims(len(dims))
    return SymArray(out, axes, sa.promote([a.kind, b.kind]))


def f_matmul(a, b):
    a, b = asym(a), asym(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: scalar operand')
    if a.ndim <= 2 and b.ndim <= 2:
        return f_dot(a, b)
    if a.ndim == 1:
        return f_einsum('j,...jk->...k', a, b)
    if b.ndim == 1:
        return f_einsum('...ij,j->...i', a, b)
    return f_einsum('...ij,...jk->...ik', a, b)


def f_einsum(sub, *ops, **kw):
    if not isinstance(sub, str):
        raise Unsupported('einsum operand form')
    ops = [asym(o) for o in ops]
    sub = sub.replace(' ', '')
    if '->' in sub:
        ins, outs = sub.split('->')
    else:
        ins, outs = sub, None
    ins = ins.split(',')
    letters = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if c not in sub]
    ell = 0
    for s, o in zip(ins, ops):
        if '...' in s:
            ell = builtins.max(ell, o.ndim - len(s.replace('...', '')))
    ell_l = ''.join(letters[:ell])
    new = []
    for s, o in zip(ins, ops):
        if '...' in s:
            n = o.ndim - len(s.replace('...', ''))
            s = s.replace('...', ell_l[len(ell_l) - n:])
        if len(s) != o.ndim:
            raise ValueError('einstein sum subscripts string does not match operand')
        new.append(s)
    ins = new
    if outs is None:
        allc = ''.join(ins)
        outs = ell_l + ''.join(c for c in sorted(set(allc)) if allc.count(c) == 1 and c not in ell_l)
    else:
        outs = outs.replace('...', ell_l)
    ax = {}
    for s, o in zip(ins, ops):
        for c, a in zip(s, o.axes):
            if c in ax and not (isinstance(ax[c], int) and ax[c] == 1):
                if isinstance(a, int) and a == 1 and c in ell_l:
                    continue
                if not axis_eq(ax[c], a):
                    raise ShapeError('einsum operand dimension mismatch for %s: %r vs %r' % (c, ax[c], a))
            elif c in ax and not axis_eq(ax[c], a):
                if c in ell_l or True:
                    if not (c in ell_l):
                        raise ShapeError('einsum dimension mismatch')
                    ax[c] = a
            else:
                ax[c] = a
    summed = [c for c in ax if c not in outs]
    if any(isinstance(ax[c], Dim) for c in summed):
        raise Unsupported('einsum contraction over symbolic axis')
    axes = tuple(ax[c] for c in outs)
    dims = [d for d in axes if isinstance(d, Dim)]
    if len(set(d.base for d in dims)) != len(dims):
        raise Unsupported('outer product over one symbolic dimension')
    osh = sa.pshape(axes)
    out = np.empty(osh, dtype=object)
    sr = [range(ax[c]) for c in summed]
    import itertools
    ctx().push_dims(dims)
    try:
        for i in np.ndindex(*osh):
            env = dict(zip(outs, i))
            acc = ZERO
            for combo in itertools.product(*sr):
                env.update(zip(summed, combo))
                t = None
                for s, o in zip(ins, ops):
                    v = o.p[tuple(env[c] if o.p.shape[n] != 1 else 0 for n, c in enumerate(s))]
                    t = v if t is None else tm.v_mul(t, v)
                acc = tm.v_add(acc, t)
            out[i] = ctx().tidy(acc)
    finally:
        ctx().pop_dims(len(dims))
    return SymArray(out, axes, sa.promote([o.kind for o in ops]))


def f_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = asym(a), asym(b)
    if axis is not None:
        axisa = axisb = axisc = axis
    a = f_moveaxis(a, axisa, -1)
    b = f_moveaxis(b, axisb, -1)
    if a.axes[-1] != 3 or b.axes[-1] != 3:
        raise Unsupported('cross product of non 3-vectors')
    c = lambda x, i: x[..., i]
    r = [c(a, 1) * c(b, 2) - c(a, 2) * c(b, 1),
         c(a, 2) * c(b, 0) - c(a, 0) * c(b, 2),
         c(a, 0) * c(b, 1) - c(a, 1) * c(b, 0)]
    return f_moveaxis(tidy(sa.stack(r, -1)), -1, axisc)


def f_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported('norm order')
    x = asym(x)
    s = f_sum(x * x, axis=axis, keepdims=keepdims)
    return apply_uf('sqrt', [s])


def _det(M, n):
    if n == 1:
        return M[0][0]
    if n == 2:
        return tm.v_add(tm.v_mul(M[0][0], M[1][1]), tm.v_neg(tm.v_mul(M[0][1], M[1][0])))
    acc = ZERO
    for j in range(n):
        if M[0][j] is ZERO:
            continue
        minor = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = tm.v_mul(M[0][j], _det(minor, n - 1))
        acc = tm.v_add(acc, t if j % 2 == 0 else tm.v_neg(t))
    return acc


def f_det(a):
    a = asym(a)
    if a.ndim != 2:
        raise Unsupported('stacked det')
    n = a.axes[0]
    return SymArray(_obj(ctx().tidy(_det(a.p.tolist(), n))), (), 'f')


def f_inv(a):
    a = asym(a)
    if a.ndim != 2:
        raise Unsupported('stacked inverse')
    n = a.axes[0]
    M = a.p.tolist()
    c = ctx()
    if n == 4 and M[3][0] is ZERO and M[3][1] is ZERO and M[3][2] is ZERO and M[3][3] is ONE:
        A = SymArray(a.p[:3, :3], (3, 3), a.kind)
        Ai = f_inv(A)
        t = f_dot(Ai, SymArray(a.p[:3, 3], (3,), a.kind))
        p = np.empty((4, 4), dtype=object)
        p[...] = ZERO
        p[3, 3] = ONE
        p[:3, :3] = Ai.p
        for i in range(3):
            p[i, 3] = tm.v_neg(t.p[i])
        return SymArray(p, (4, 4), 'f')
    det = c.simp(_det(M, n))
    c.obligate(tm.b_not(tm.v_eq(det, ZERO)), 'matrix is invertible', exc=np.linalg.LinAlgError)
    p = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = [[M[r][k] for k in range(n) if k != i] for r in range(n) if r != j]
            co = _det(minor, n - 1) if n > 1 else ONE
            if (i + j) % 2:
                co = tm.v_neg(co)
            p[i, j] = c.simp(tm.v_div(c.simp(co), det))
    return SymArray(p, (n, n), 'f')


# ------------------------------------------------------------------ structure

def f_moveaxis(x, s, d):
    x = asym(x)
    n = x.ndim
    s %= n
    d %= n
    order = [i for i in range(n) if i != s]
    order.insert(d, s)
    return f_transpose(x, order)


def f_transpose(x, axes=None):
    x = asym(x)
    if axes is None:
        axes = tuple(range(x.ndim))[::-1]
    axes = tuple(a % x.ndim for a in axes)
    return SymArray(np.transpose(x.p, axes), [x.axes[i] for i in axes], x.kind)


def f_swapaxes(x, a, b):
    x = asym(x)
    o = list(range(x.ndim))
    a %= x.ndim
    b %= x.ndim
    o[a], o[b] = o[b], o[a]
    return f_transpose(x, o)


def f_expand_dims(x, axis):
    x = asym(x)
    axis %= x.ndim + 1
    return SymArray(np.expand_dims(x.p, axis), x.axes[:axis] + (1,) + x.axes[axis:], x.kind)


def f_squeeze(x, axis=None):
    x = asym(x)
    ax = [i for i, a in enumerate(x.axes) if a == 1 and isinstance(a, int)]
    if axis is not None:
        ax = [a % x.ndim for a in (axis if isinstance(axis, tuple) else (axis,))]
    return SymArray(np.squeeze(x.p, tuple(ax)), [a for i, a in enumerate(x.axes) if i not in ax], x.kind)


def f_reshape(x, shape, order='C', **k):
    x = asym(x)
    if 'newshape' in k:
        shape = k['newshape']
    shape = list(sa.toshape(shape))
    src = list(x.axes)
    sd = [a for a in src if isinstance(a, Dim)]
    if not sd:
        if any(isinstance(a, Dim) for a in shape):
            raise ShapeError('cannot reshape')
        p = np.reshape(x.p, shape)
        r = SymArray(p, p.shape, x.kind)
        return r
    if len(sd) > 1:
        raise Unsupported('reshape with several symbolic axes')
    d = sd[0]
    pos = [i for i, a in enumerate(src) if isinstance(a, Dim)][0]
    if order != 'C':
        raise Unsupported('reshape order')
    td = [i for i, a in enumerate(shape) if isinstance(a, Dim)]
    conc = 1
    for a in src:
        if isinstance(a, int):
            conc *= a
    if not td:
        known = 1
        for a in shape:
            if a != -1:
                known *= a
        if shape.count(-1) != 1 or known != conc:
            raise Unsupported('reshape of symbolic dimension')
        i = shape.index(-1)
        shape[i] = d
        td = [i]
    if len(td) != 1 or not axis_eq(shape[td[0]], d):
        raise ShapeError('cannot reshape')
    if -1 in shape:
        known = 1
        for a in shape:
            if isinstance(a, int) and a != -1:
                known *= a
        shape[shape.index(-1)] = conc // known
    # the Dim axis must keep the same number of elements on each side
    def left(l):
        r = 1
        for a in l:
            if isinstance(a, Dim):
                return r
            r *= a
    if left(src) != left(shape):
        raise Unsupported('reshape across a symbolic dimension')
    p = np.reshape(x.p, sa.pshape(shape))
    return SymArray(p, shape, x.kind)


def f_concatenate(arrs, axis=0, **k):
    arrs = [asym(a) for a in arrs]
    if axis is None:
        arrs = [f_reshape(a, (-1,)) for a in arrs]
        axis = 0
    n = arrs[0].ndim
    if n == 0 or any(a.ndim != n for a in arrs):
        raise ValueError('all the input array dimensions must match exactly')
    axis %= n
    tot = 0
    for a in arrs:
        if isinstance(a.axes[axis], Dim):
            if len(arrs) == 1:
                return arrs[0].copy()
            raise Unsupported('concatenation along symbolic axis')
        tot += a.axes[axis]
        for i in range(n):
            if i != axis and not axis_eq(a.axes[i], arrs[0].axes[i]):
                raise ShapeError('concatenate: mismatch')
    kind = sa.promote([a.kind for a in arrs])
    p = np.concatenate([sa.convert(a.p, a.kind, kind) for a in arrs], axis)
    return SymArray(p, arrs[0].axes[:axis] + (tot,) + arrs[0].axes[axis + 1:], kind)


def f_atleast(n):
    def f(*xs):
        out = []
        for x in xs:
            x = asym(x)
            while x.ndim < n:
                x = f_expand_dims(x, 0)
            out.append(x)
        return out[0] if len(out) == 1 else out
    return f


def f_vstack(arrs, **k):
    return f_concatenate([f_atleast(2)(a) for a in list(arrs)], 0)


def f_hstack(arrs, **k):
    arrs = [f_atleast(1)(a) for a in list(arrs)]
    return f_concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def f_column_stack(arrs, **k):
    arrs = [asym(a) for a in arrs]
    return f_concatenate([a if a.ndim > 1 else f_expand_dims(a, 1) for a in arrs], 1)


def f_stack(arrs, axis=0, **k):
    return sa.stack(list(arrs), axis)


def f_dstack(arrs):
    return f_concatenate([f_expand_dims(asym(a), 2) for a in arrs], 2)


def f_tile(x, reps):
    x = asym(x)
    reps = sa.toshape(reps)
    while x.ndim < len(reps):
        x = f_expand_dims(x, 0)
    reps = (1,) * (x.ndim - len(reps)) + tuple(reps)
    p = np.tile(x.p, sa.pshape(reps))
    axes = []
    for a, r in zip(x.axes, reps):
        if isinstance(r, Dim):
            if a != 1:
                raise Unsupported('tile of non-singleton axis')
            axes.append(r)
        elif isinstance(a, Dim):
            if r != 1:
                raise Unsupported('tile of symbolic axis')
            axes.append(a)
        else:
            axes.append(a * r)
    return SymArray(p.copy(), axes, x.kind)


def f_repeat(x, n, axis=None):
    x = asym(x)
    n = sa.todim(n) if not isinstance(n, (list, np.ndarray)) else n
    if axis is None:
        x = f_reshape(x, (-1,))
        axis = 0
    if isinstance(n, Dim):
        if x.axes[axis] != 1:
            raise Unsupported('repeat')
        return SymArray(x.p.copy(), x.axes[:axis] + (n,) + x.axes[axis + 1:], x.kind)
    if isinstance(x.axes[axis], Dim):
        raise Unsupported('repeat')
    p = np.repeat(x.p, n, axis)
    return SymArray(p, x.axes[:axis] + (p.shape[axis],) + x.axes[axis + 1:], x.kind)


def f_broadcast_to(x, shape, **k):
    x = asym(x)
    axes = sa.toshape(shape)
    return SymArray(sa._bcast_to(x, axes), axes, x.kind)


def f_broadcast_arrays(*xs, **k):
    xs = [asym(x) for x in xs]
    axes = sa.broadcast_axes([x.axes for x in xs])
    return [SymArray(sa._bcast_to(x, axes), axes, x.kind) for x in xs]


def f_diag(x, k=0):
    x = asym(x)
    if k or any(isinstance(a, Dim) for a in x.axes):
        raise Unsupported('diag')
    if x.ndim == 1:
        n = x.axes[0]
        p = np.empty((n, n), dtype=object)
        p[...] = ZERO
        for i in range(n):
            p[i, i] = tm.tosortR(x.p[i])
        return SymArray(p, (n, n), x.kind)
    return SymArray(np.array([x.p[i, i] for i in range(builtins.min(x.p.shape))], dtype=object),
                    (builtins.min(x.p.shape),), x.kind)


def f_outer(a, b):
    a, b = asym(a), asym(b)
    return f_expand_dims(a, 1) * b


def f_where(c, *ab):
    c = asym(c)
    if not ab:
        return f_nonzero(c)
    return elementwise(lambda c, a, b: tm.v_ite(sa.tobool(c), a, b), [c, asym(ab[0]), asym(ab[1])],
                       sa.promote([asym(x).kind for x in ab]))


def f_nonzero(x):
    x = asym(x)
    if x.ndim != 1:
        raise Unsupported('nonzero of %d-d array' % x.ndim)
    d = x.axes[0]
    if isinstance(d, int):
        flags = [ctx().decide(sa.tobool(t)) for t in x.p]
        return (np.array(flags, dtype=bool).nonzero()[0],)
    dd = d.sub(sa.tobool(x.p[0]))
    p = np.empty((1,), dtype=object)
    # value = position in the indexed array; for a base dimension the row number
    p[0] = tm.mk('rownum', (d.row,), 'R') if not d.conds else tm.mk('rownum', (d.row,), 'R')
    r = SymArray(p, (dd,), 'i')
    r.idspace = d
    return (r,)


def f_clip(x, a=None, b=None, min=None, max=None, **k):
    a = min if a is None else a
    b = max if b is None else b
    r = asym(x)
    if a is not None:
        r = elementwise(_max, [r, asym(a)])
    if b is not None:
        r = elementwise(_min, [r, asym(b)])
    return r


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asym(a), asym(b)
    rt, at = asym(rtol), asym(atol)

    def f(x, y, r, t):
        x, y = tm.tosortR(x), tm.tosortR(y)
        fin = tm.v_le(tm.v_abs(tm.v_add(x, tm.v_neg(y))), tm.v_add(t, tm.v_mul(r, tm.v_abs(y))))
        if isinstance(x, T) and isinstance(y, T):
            return fin
        both = tm.b_and(tm.isfinite(x), tm.isfinite(y))
        return tm.b_or(tm.b_and(both, tm.t_le(tm.t_abs(tm.t_sub(tm.R(x), tm.R(y))),
                                              tm.t_add(tm.R(t), tm.t_mul(tm.R(r), tm.t_abs(tm.R(y)))))),
                       tm.b_and(tm.b_not(both), tm.v_eq(x, y)),
                       tm.b_and(tm.isnan(x), tm.isnan(y)) if equal_nan else FALSE)
    return elementwise(f, [a, b, rt, at], 'b')


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return f_all(f_isclose(a, b, rtol, atol, equal_nan))


def f_array_equal(a, b, **k):
    a, b = asym(a), asym(b)
    if len(a.axes) != len(b.axes) or not all(axis_eq(x, y) for x, y in zip(a.axes, b.axes)):
        return False
    return f_all(a == b)


def f_full_like(x, v, dtype=None, **k):
    x = asym(x)
    kind = kind_of_dtype(dtype, x.kind)
    return sa.full(x.axes, tm.ZERO, kind).__class__(sa.full(x.axes, sa.conv1(asym(v).scalar(), asym(v).kind, kind), kind).p, x.axes, kind)


def kind_of_dtype(dt, default='f'):
    if dt is None:
        return default
    if isinstance(dt, np.dtype) or isinstance(dt, type) or isinstance(dt, str):
        k = np.dtype(dt).kind
        return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f'}.get(k, 'O')
    return default


def f_zeros_like(x, dtype=None, **k):
    x = asym(x)
    kind = kind_of_dtype(dtype, x.kind)
    return sa.full(x.axes, FALSE if kind == 'b' else ZERO, kind)


def f_ones_like(x, dtype=None, **k):
    x = asym(x)
    kind = kind_of_dtype(dtype, x.kind)
    return sa.full(x.axes, TRUE if kind == 'b' else ONE, kind)


def f_empty_like(x, dtype=None, **k):
    x = asym(x)
    kind = kind_of_dtype(dtype, x.kind)
    return uninit(x.axes, kind)


def uninit(axes, kind):
    """np.empty: fresh unconstrained contents"""
    p = np.empty(sa.pshape(axes), dtype=object)
    dims = [a for a in axes if isinstance(a, Dim)]
    nm = tm.fresh_name('uninit')
    for i in np.ndindex(*p.shape):
        p[i] = tm.var(nm, dims[0].row if len(dims) == 1 else None, i, 'B' if kind == 'b' else 'R')
    return SymArray(p, axes, kind)


def f_diff(x, n=1, axis=-1, **k):
    x = asym(x)
    if n != 1:
        raise Unsupported('diff order')
    axis %= x.ndim
    s1 = [slice(None)] * x.ndim
    s2 = [slice(None)] * x.ndim
    s1[axis] = slice(1, None)
    s2[axis] = slice(None, -1)
    return x[tuple(s1)] - x[tuple(s2)]


def f_meshgrid(*xs, indexing='xy', **k):
    xs = [asym(x) for x in xs]
    n = len(xs)
    if n != 2 or any(x.ndim != 1 for x in xs):
        raise Unsupported('meshgrid')
    a, b = xs
    if indexing == 'xy':
        A = f_expand_dims(a, 0)
        B = f_expand_dims(b, 1)
        ax = (b.axes[0], a.axes[0])
    else:
        A = f_expand_dims(a, 1)
        B = f_expand_dims(b, 0)
        ax = (a.axes[0], b.axes[0])
    return [f_broadcast_to(A, tuple(SymArray(_obj(x.card()), (), 'i') if isinstance(x, Dim) else x for x in ax)).copy(),
            f_broadcast_to(B, tuple(SymArray(_obj(x.card()), (), 'i') if isinstance(x, Dim) else x for x in ax)).copy()]


def f_interp(x, xp, fp, left=None, right=None, period=None):
    x, xp, fp = asym(x), asym(xp), asym(fp)
    if isinstance(xp.axes[0], Dim) or left is not None or right is not None or period is not None:
        raise Unsupported('interp')
    n = xp.axes[0]

    def f(t):
        r = fp.p[n - 1]
        for i in range(n - 2, -1, -1):
            x0, x1 = xp.p[i], xp.p[i + 1]
            y0, y1 = tm.tosortR(fp.p[i]), tm.tosortR(fp.p[i + 1])
            seg = tm.v_add(y0, tm.v_mul(tm.v_div(sa.v_sub(y1, y0), sa.v_sub(x1, x0)), sa.v_sub(t, x0)))
            r = tm.v_ite(tm.v_lt(t, x1), seg, r)
        r = tm.v_ite(tm.v_lt(t, xp.p[0]), fp.p[0], r)
        return r
    return elementwise(f, [x], 'f')


def f_searchsorted(a, v, side='left', sorter=None):
    a, v = asym(a), asym(v)
    if isinstance(a.axes[0], Dim) or sorter is not None:
        raise Unsupported('searchsorted on symbolic array')
    c = ctx()
    # precondition of searchsorted: sorted array
    for i in range(a.axes[0] - 1):
        c.obligate(tm.v_le(a.p[i], a.p[i + 1]), 'searchsorted: array is sorted', exc='unspecified')

    def f(t):
        r = ZERO
        for i in range(a.axes[0]):
            cond = tm.v_lt(a.p[i], t) if side == 'left' else tm.v_le(a.p[i], t)
            r = tm.t_add(r, tm.t_ite(cond, ONE, ZERO))
        return r
    # as an ite chain, using sortedness
    def g(t):
        r = ZERO
        for i in range(a.axes[0]):
            cond = tm.v_lt(a.p[i], t) if side == 'left' else tm.v_le(a.p[i], t)
            r = tm.t_ite(cond, tm.const(i + 1), r)
        return r
    return elementwise(g, [v], 'i')


def f_digitize(x, bins, right=False):
    bins = asym(bins)
    if isinstance(bins.axes[0], Dim):
        raise Unsupported('digitize with an unbounded number of bins')
    c = ctx()
    for i in range(bins.axes[0] - 1):
        c.obligate(tm.v_le(bins.p[i], bins.p[i + 1]), 'digitize: bins are sorted', exc='unspecified')
    return f_searchsorted(bins, x, side='left' if right else 'right')


def f_round(x, decimals=0, **k):
    x = asym(x)
    if decimals != 0:
        raise Unsupported('round to decimals')

    def f(t):
        # half-to-even
        fl = tm.t_unary('floor', t)
        fr = tm.t_sub(t, fl)
        h = tm.const(tm.Fraction(1, 2))
        even = tm.t_eq(fl, tm.t_mul(tm.const(2), tm.t_unary('floor', tm.t_mul(h, fl))))
        up = tm.b_or(tm.t_lt(h, fr), tm.b_and(tm.t_eq(fr, h), tm.b_not(even)))
        return tm.t_ite(up, tm.t_add(fl, ONE), fl)
    return elementwise(f, [x], x.kind)


def f_copy(x, **k):
    return asym(x).copy()


def f_flip(x, axis=None):
    x = asym(x)
    axes = _norm_axis(axis, x.ndim)
    key = tuple(slice(None, None, -1) if i in axes else slice(None) for i in range(x.ndim))
    return x[key]


def f_nan_to_num(x, nan=0.0, **k):
    return elementwise(lambda t: tm.v_ite(tm.isnan(t), tm.lift(nan), t), [asym(x)])


def f_count_nonzero(x, axis=None):
    x = asym(x)
    return f_sum(elementwise(sa.tobool, [x], 'b'), axis=axis)


def f_isin(x, ts, **k):
    x = asym(x)
    ts = asym(ts)
    r = None
    for t in ts.p.ravel():
        q = elementwise(lambda a: tm.v_eq(a, t), [x], 'b')
        r = q if r is None else (r | q)
    return r


def f_std(x, axis=None, **k):
    x = asym(x)
    m = f_mean(x, axis)
    return apply_uf('sqrt', [f_mean((x - m) ** 2, axis)])


def f_take(x, ind, axis=None, **k):
    if axis is None:
        return f_reshape(asym(x), (-1,))[ind]
    return asym(x)[(slice(None),) * axis + (ind,)]


def f_append(a, b, axis=None):
    return f_concatenate([f_atleast(1)(a), f_atleast(1)(b)], axis)


def f_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    """for arrays of known size only: sorted by comparing the entries (a path for
    each possible order), equal rows kept once"""
    import functools
    a = asym(a)
    if return_index or return_inverse or return_counts or k or axis not in (None, 0) or not all(isinstance(x, int) for x in a.axes):
        raise Unsupported('np.unique')
    if axis is None:
        a = f_reshape(a, (-1,))
    if not a.axes[0]:
        return a
    flat = [list(a.p[i].flat) if a.ndim > 1 else [a.p[i]] for i in range(a.axes[0])]
    one = lambda t: SymArray(_obj(t), (), a.kind)

    def cmp(i, j):
        for x, y in zip(flat[i], flat[j]):
            if x is y:
                continue
            if bool(one(x) == one(y)):
                continue
            return -1 if bool(one(x) < one(y)) else 1
        return 0
    order = sorted(range(a.axes[0]), key=functools.cmp_to_key(cmp))
    keep = [i for n, i in enumerate(order) if n == 0 or cmp(order[n - 1], i) != 0]
    return a[keep]


def f_argsort(a, axis=-1, kind=None, **k):
    """for one-dimensional arrays of known length: a path for each possible order"""
    import functools
    a = asym(a)
    if k or a.ndim != 1 or not isinstance(a.axes[0], int) or a.kind == 'b':
        raise Unsupported('argsort')
    one = lambda t: SymArray(_obj(t), (), a.kind)

    def cmp(i, j):
        x, y = a.p[i], a.p[j]
        if x is y or bool(one(x) == one(y)):
            return 0
        return -1 if bool(one(x) < one(y)) else 1
    return asym(np.array(sorted(range(a.axes[0]), key=functools.cmp_to_key(cmp)), dtype=int))


def f_sort(a, axis=-1, kind=None, **k):
    a = asym(a)
    return a[f_argsort(a, axis, kind, **k)]


def f_flatnonzero(a):
    return f_nonzero(f_reshape(asym(a), (-1,)))[0]


def f_argwhere(a):
    return f_reshape(asym(f_nonzero(a)[0]), (-1, 1))


def f_roll(a, shift, axis=None):
    a = asym(a)
    if axis is None and a.ndim == 1:
        axis = 0
    if axis is None or not isinstance(axis, int) or not isinstance(a.axes[axis % a.ndim], int):
        raise Unsupported('roll')
    axis %= a.ndim
    n = a.axes[axis]
    return a[(slice(None),) * axis + (np.roll(np.arange(n), int(shift)),)]


def f_fliplr(a):
    return asym(a)[:, ::-1]


def f_flipud(a):
    return asym(a)[::-1]


def f_compress(cond, a, axis=None):
    if axis not in (None, 0) or asym(a).ndim > 1 and axis is None:
        raise Unsupported('compress')
    return asym(a)[cond]


def f_extract(cond, a):
    return asym(a)[cond]


def f_select(condlist, choicelist, default=0):
    out = default
    for c, v in list(zip(condlist, choicelist))[::-1]:
        out = np.where(asym(c), v, out)
    return out


def f_inner(a, b):
    a, b = asym(a), asym(b)
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported('inner')
    return f_dot(a, b)


def f_tensordot(a, b, axes=2):
    if axes != 1:
        raise Unsupported('tensordot')
    a, b = asym(a), asym(b)
    if b.ndim > 2:
        raise Unsupported('tensordot')
    return f_dot(a, b)


def f_ptp(a, axis=None):
    return f_max(a, axis=axis) - f_min(a, axis=axis)


def f_trace(a):
    return f_sum(f_diag(a))


FUN = {
    'sum': f_sum, 'prod': f_prod, 'any': f_any, 'all': f_all, 'amax': f_max, 'max': f_max,
    'amin': f_min, 'min': f_min, 'mean': f_mean, 'average': f_average, 'cumsum': f_cumsum,
    'argmax': f_argmax, 'argmin': f_argmin, 'dot': f_dot, 'einsum': f_einsum, 'cross': f_cross,
    'norm': f_norm, 'inv': f_inv, 'det': f_det, 'moveaxis': f_moveaxis, 'transpose': f_transpose,
    'swapaxes': f_swapaxes, 'expand_dims': f_expand_dims, 'squeeze': f_squeeze, 'reshape': f_reshape,
    'concatenate': f_concatenate, 'vstack': f_vstack, 'hstack': f_hstack, 'stack': f_stack,
    'dstack': f_dstack, 'column_stack': f_column_stack, 'tile': f_tile, 'repeat': f_repeat,
    'broadcast_to': f_broadcast_to, 'broadcast_arrays': f_broadcast_arrays, 'diag': f_diag,
    'outer': f_outer, 'where': f_where, 'nonzero': f_nonzero, 'clip': f_clip, 'isclose': f_isclose,
    'allclose': f_allclose, 'array_equal': f_array_equal, 'full_like': f_full_like,
    'zeros_like': f_zeros_like, 'ones_like': f_ones_like, 'empty_like': f_empty_like,
    'diff': f_diff, 'meshgrid': f_meshgrid, 'interp': f_interp, 'searchsorted': f_searchsorted, 'digitize': f_digitize,
    'round': f_round, 'around': f_round, 'copy': f_copy, 'flip': f_flip, 'nan_to_num': f_nan_to_num,
    'count_nonzero': f_count_nonzero, 'isin': f_isin, 'std': f_std, 'take': f_take,
    'append': f_append, 'ravel': lambda x, **k: f_reshape(asym(x), (-1,)),
    'atleast_1d': f_atleast(1), 'atleast_2d': f_atleast(2), 'trace': f_trace,
    'ndim': lambda x: asym(x).ndim, 'shape': lambda x: asym(x).shape, 'size': lambda x, a=None: asym(x).size,
    'unique': f_unique, 'argsort': f_argsort,
    'matmul': f_matmul, 'may_share_memory': lambda *a: True, 'iscomplexobj': lambda x: False,
    'nansum': None, 'sort': f_sort, 'flatnonzero': f_flatnonzero, 'argwhere': f_argwhere, 'roll': f_roll,
    'fliplr': f_fliplr, 'flipud': f_flipud, 'compress': f_compress, 'extract': f_extract, 'select': f_select,
    'inner': f_inner, 'vdot': f_inner, 'tensordot': f_tensordot, 'ptp': f_ptp, 'row_stack': f_vstack,
}


def array_function(func, args, kwargs):
    name = func.__name__
    f = FUN.get(name)
    if f is None:
        raise Unsupported('numpy function ' + name)
    return f(*args, **kwargs)


# ---------------------------------------------------------------- np proxies

class _NdMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, np.ndarray) or (isinstance(o, SymArray) and o.ndim > 0)

    def __subclasscheck__(cls, o):
        return issubclass(o, (np.ndarray, SymArray))


class ShimNdarray(metaclass=_NdMeta):
    pass


def _tosizes(size):
    if size is None:
        return ()
    return sa.toshape(size)


def fresh_array(name, axes, kind='f', lo=None, hi=None, strict=(False, False), fact=None):
    p = np.empty(sa.pshape(axes), dtype=object)
    dims = [a for a in axes if isinstance(a, Dim)]
    if len(dims) > 1:
        raise Unsupported('fresh array with several symbolic axes')
    nm = name
    for i in np.ndindex(*p.shape):
        p[i] = tm.var(nm, dims[0].row if dims else None, i, 'B' if kind == 'b' else 'R')
    if lo is not None or hi is not None:
        ctx().set_bounds(nm, lo, hi, strict)
    if kind == 'i':
        ctx().intvars.add(nm)
    if fact is not None:
        ctx().leaffacts.setdefault(nm, []).append(fact)
    return SymArray(p, axes, kind)


class RandomShim(object):
    """Assumed contracts of numpy.random: values in the documented range."""
    hook = None         # a draws.Draws, if the contract wants to see the numbers

    def __getattribute__(self, n):
        h = RandomShim.hook
        if h is not None and h.active:
            from .draws import NAMES
            if n in NAMES:
                h.active = False
                f = getattr(h, n)

                def g(*a, **k):
                    h.active = False
                    try:
                        return f(*a, **k)
                    finally:
                        h.active = True
                h.active = True
                return g
        return object.__getattribute__(self, n)

    def seed(self, *a):
        return None

    def rand(self, *shape):
        return fresh_array(tm.fresh_name('rand'), sa.toshape(shape), 'f', 0, 1, (False, True))

    def random(self, size=None):
        return fresh_array(tm.fresh_name('rand'), _tosizes(size) if size is not None else (), 'f', 0, 1, (False, True))

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        u = fresh_array(tm.fresh_name('rand'), _tosizes(size) if size is not None else
                        sa.broadcast_axes([asym(low).axes, asym(high).axes]), 'f', 0, 1, (False, True))
        return asym(low) + u * (asym(high) - asym(low))

    def normal(self, loc=0.0, scale=1.0, size=None):
        ax = _tosizes(size) if size is not None else sa.broadcast_axes([asym(loc).axes, asym(scale).axes])
        c = ctx()
        s = asym(scale)
        for d in [x for x in s.axes if isinstance(x, Dim)]:
            c.push_dims([d])
        try:
            for t in s.p.ravel():
                c.obligate(tm.v_le(ZERO, t), 'random.normal: scale >= 0', exc=ValueError)
        finally:
            for d in [x for x in s.axes if isinstance(x, Dim)]:
                c.pop_dims(1)
        z = fresh_array(tm.fresh_name('randn'), ax, 'f')
        return asym(loc) + z * s

    def randn(self, *shape):
        return fresh_array(tm.fresh_name('randn'), sa.toshape(shape), 'f')

    def standard_normal(self, size=None):
        return fresh_array(tm.fresh_name('randn'), _tosizes(size) if size is not None else (), 'f')

    def randint(self, low, high=None, size=None):
        if high is None:
            low, high = 0, low
        return fresh_array(tm.fresh_name('randint'), _tosizes(size), 'i', int(low), int(high), (False, True))

    def choice(self, a, size=None, replace=True, p=None):
        c = ctx()
        axes = _tosizes(size)
        if isinstance(a, (int, np.integer)):
            n = int(a)
            vals = None
        else:
            vals = asym(a)
            n = vals.axes[0]
        if not isinstance(n, int) or replace is not True:
            raise Unsupported('random.choice')
        pp = None
        if p is not None:
            pp = asym(p)
            if pp.axes[0] != n:
                raise ValueError("'a' and 'p' must have same size")
            for t in pp.p:
                c.obligate(tm.v_le(ZERO, t), 'random.choice: probabilities non-negative', exc=ValueError)
        nm = tm.fresh_name('choice')
        fact = None
        if pp is not None:
            def fact(v, pp=pp, n=n):
                return tm.b_or(*[tm.b_and(tm.t_eq(v, tm.const(k)), tm.v_lt(ZERO, pp.p[k])) for k in range(n)])
        ind = fresh_array(nm, axes, 'i', 0, n - 1, (False, False), fact)
        if fact is None:
            ctx().leaffacts.setdefault(nm, []).append(
                lambda v, n=n: tm.b_or(*[tm.t_eq(v, tm.const(k)) for k in range(n)]) if n <= 12 else TRUE)
        if vals is None:
            return ind
        return vals[ind]

    def poisson(self, lam=1.0, size=None):
        return fresh_array(tm.fresh_name('poisson'), _tosizes(size), 'i', 0, None)

    def exponential(self, scale=1.0, size=None):
        u = fresh_array(tm.fresh_name('rexp'), _tosizes(size), 'f', 0, None)
        return u * asym(scale)

    def __getattr__(self, n):
        raise Unsupported('numpy.random.' + n)


class LinalgShim(object):
    LinAlgError = np.linalg.LinAlgError

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        if has_sym(x):
            return f_norm(x, ord, axis, keepdims)
        return np.linalg.norm(x, ord, axis, keepdims)

    @staticmethod
    def inv(x):
        return f_inv(x) if has_sym(x) else np.linalg.inv(x)

    @staticmethod
    def det(x):
        return f_det(x) if has_sym(x) else np.linalg.det(x)

    def __getattr__(self, n):
        raise Unsupported('numpy.linalg.' + n)


class SymMasked(object):
    """values and a mask (True: not used)"""
    def __init__(self, v, mask):
        self.v, self.mask = v, mask


class MaShim(object):
    """numpy.ma: masked values do not take part in an average; an average of
    nothing is masked (shown as NaN)"""
    masked = np.ma.masked

    @staticmethod
    def masked_invalid(x, copy=True):
        x = asym(x)
        return SymMasked(x, ~apply_uf('isfinite', [x]))

    @staticmethod
    def average(x, axis=None, weights=None, **k):
        if not isinstance(x, SymMasked) and not has_sym([x, weights]):
            return np.ma.average(x, axis=axis, weights=weights, **k)
        if k:
            raise Unsupported('np.ma.average')
        if not isinstance(x, SymMasked):
            x = SymMasked(asym(x), None)
        w = f_ones_like(x.v) if weights is None else asym(weights)
        v = x.v
        if w.ndim != v.ndim:
            if w.ndim != 1:
                raise Unsupported('np.ma.average: shape of weights')
            w = f_broadcast_to(f_moveaxis(f_broadcast_to(w, tuple(a for a in v.axes if a is not v.axes[axis]) + w.axes), -1, axis), v.axes)
        if x.mask is not None:
            w = f_where(x.mask, 0., w)
            v = f_where(x.mask, 0., v)
        s = f_sum(w, axis=axis)
        return f_where(s == 0, np.nan, f_sum(v * w, axis=axis) / f_where(s == 0, 1., s))

    def __getattr__(self, n):
        raise Unsupported('np.ma.' + n)


class NpShim(object):
    """Stand-in for the numpy module inside the code under verification."""

    ndarray = ShimNdarray

    def __init__(self):
        self.random = RandomShim()
        self.linalg = LinalgShim()
        self.ma = MaShim()

    def __getattribute__(self, name):
        r = object.__getattribute__(self, name)
        return _quantities(self, name, r)

    # creation ------------------------------------------------------------
    @staticmethod
    def array(x, dtype=None, copy=True, **k):
        if isinstance(x, SymArray):
            r = x.copy() if copy is not False else x
        elif has_sym(x):
            r = sa.nested(x if not isinstance(x, np.ndarray) else x.tolist())
        else:
            a = np.array(x, dtype=dtype, **k)
            if a.dtype.kind not in 'bif' or a.dtype.kind == 'O':
                return a
            return asym(a)
        if dtype is not None:
            return r.astype(dtype)
        return r

    @staticmethod
    def asarray(x, dtype=None, **k):
        if isinstance(x, SymArray) or hasattr(x, '_to_sym'):
            x = asym(x)
            return x if dtype is None else x.astype(dtype)
        return NpShim.array(x, dtype)

    asanyarray = asarray
    ascontiguousarray = asarray
    asfarray = asarray

    @staticmethod
    def zeros(shape, dtype=float, **k):
        kd = kind_of_dtype(dtype)
        if kd == 'O':
            return np.zeros(shape, dtype)
        return sa.full(sa.toshape(shape), FALSE if kd == 'b' else ZERO, kd)

    @staticmethod
    def ones(shape, dtype=float, **k):
        kd = kind_of_dtype(dtype)
        return sa.full(sa.toshape(shape), TRUE if kd == 'b' else ONE, kd)

    @staticmethod
    def full(shape, v, dtype=None, **k):
        v = asym(v)
        kd = kind_of_dtype(dtype, v.kind)
        return SymArray(np.array(np.broadcast_to(sa.convert(v.p, v.kind, kd), sa.pshape(sa.toshape(shape)))), sa.toshape(shape), kd)

    @staticmethod
    def empty(shape, dtype=float, **k):
        kd = kind_of_dtype(dtype)
        if kd == 'O':
            return np.empty(shape, dtype)
        return uninit(sa.toshape(shape), kd)

    @staticmethod
    def eye(n, *a, **k):
        return asym(np.eye(n, *a, **k))

    identity = eye

    @staticmethod
    def arange(*a, **k):
        if len(a) == 1 and isinstance(a[0], SymArray):
            t0 = a[0].p[()] if not a[0].axes else None
            if isinstance(t0, T) and t0.op not in ('const', 'card'):
                r = sym_arange(a[0])
                return r
            d = sa.todim(a[0])
            if isinstance(d, Dim):
                p = np.empty((1,), dtype=object)
                p[0] = tm.mk('rownum', (d.row,), 'R')
                r = SymArray(p, (d,), 'i')
                r.idspace = d if not d.conds else None
                if d.conds:
                    raise Unsupported('arange over a sub-dimension')
                return r
            return asym(np.arange(d))
        if any(isinstance(x, SymArray) or hasattr(x, '_to_sym') for x in a) and not k:
            r = sym_arange(*[asym(x) for x in a])
            if r is not None:
                return r
        if any(isinstance(x, SymArray) for x in a):
            a = [float(x) if isinstance(x, SymArray) and x.kind == 'f' else (int(x) if isinstance(x, SymArray) else x) for x in a]
        return asym(np.arange(*a, **k))

    @staticmethod
    def linspace(start, stop, num=50, endpoint=True, **k):
        if k:
            raise Unsupported('linspace options')
        if isinstance(num, SymArray):
            num = int(num)
        s, e = asym(start), asym(stop)
        n = num - 1 if endpoint else num
        parts = []
        for i in range(num):
            if endpoint and i == num - 1 and num > 1:
                parts.append(e + 0 * s)
            else:
                parts.append(s + (e - s) * asym(tm.Fraction(i, n) if n else 0))
        r = sa.stack(parts, 0) if parts else asym(np.zeros(0))
        r.kind = 'f'
        return r

    @staticmethod
    def isscalar(x):
        if isinstance(x, SymArray):
            return x.ndim == 0
        return np.isscalar(x)

    @staticmethod
    def isnan(x):
        return apply_uf('isnan', [x]) if has_sym(x) else np.isnan(x)

    @staticmethod
    def vstack(x, **k):
        x = list(x)
        return f_vstack(x) if has_sym(x) else asym_if(np.vstack(x))

    @staticmethod
    def errstate(*a, **k):
        return np.errstate(*a, **k)

    def __getattr__(self, name):
        return _quantities(self, name, self._plain(name))

    def _plain(self, name):
        real = getattr(np, name)
        if name in FUN and FUN[name] is not None:
            f = FUN[name]

            def g(*a, **k):
                if has_sym(a) or has_sym(list(k.values())):
                    return f(*a, **k)
                return asym_if(real(*a, **k))
            g.__name__ = name
            return g
        if isinstance(real, np.ufunc):
            def h(*a, **k):
                if has_sym(a):
                    if k:
                        out = k.pop('out', None)
                        r = array_ufunc(real, '__call__', a, dict(k, **({'out': out if isinstance(out, tuple) else (out,)} if out is not None else {})))
                        return r
                    return apply_uf(name if name in UF or name in ('invert', 'matmul') else real.__name__, a)
                # keep elementary functions of exact multiples of pi exact
                if real.__name__ in ('sin', 'cos', 'tan', 'sqrt', 'deg2rad', 'rad2deg', 'radians', 'degrees', 'arctan2', 'arcsin', 'arccos', 'exp', 'log') and not k:
                    r = [asym(x) for x in a]
                    if all(x is not NotImplemented for x in r):
                        return apply_uf(real.__name__, r)
                return real(*a, **k)
            h.__name__ = name
            return h
        return real


_INSIDE = [0]


def _quantities(shim, name, f):
    if name.startswith('_') or not callable(f) or isinstance(f, type) or name in ('random', 'linalg'):
        return f
    from . import symq, symseq

    def g(*a, **k):
        if symseq.has_seq(a):
            return symseq.handle(shim, name, a, k)
        if _INSIDE[0] == 0 and (symq.has_q(a) or (k and symq.has_q(list(k.values())))) and \
                (symq.has_symq(a) or name in ('sin', 'cos', 'tan', 'arctan2', 'sqrt')):
            r = symq.handle(shim, name, a, k)
            if r is not None:
                return r
        return f(*a, **k)
    g.__name__ = name
    return g


def asym_if(x):
    """results of real numpy functions on concrete data stay usable as targets"""
    if isinstance(x, np.ndarray) and x.dtype.kind in 'bif' and type(x) is np.ndarray:
        return asym(x)
    return x


def sym_arange(start, stop=None, step=None):
    """numpy.arange with symbolic limits: an array of unknown length n >= 1 with
    (n-1)*step < stop - start <= n*step (exact arithmetic)"""
    if stop is None:
        start, stop = asym(0.), start
    if step is None:
        step = asym(1)
    if any(x.ndim for x in (start, stop, step)):
        raise TypeError('arange of arrays')
    if all(isinstance(x.p[()], T) and x.p[()].op == 'const' for x in (start, stop, step)):
        return None
    kind = 'f' if 'f' in (start.kind, stop.kind, step.kind) else 'i'
    if not step > 0:
        raise Unsupported('arange with a step that is not positive')
    if not stop > start:
        return asym(np.zeros(0))
    c = ctx()
    d = c.dim(tm.fresh_name('arange'), nonempty=True)
    n = d.card()
    L = (stop - start).p[()]
    st = step.p[()]
    c.assume(tm.v_lt(tm.v_mul(sa.v_sub(n, ONE), st), L))
    c.assume(tm.v_le(L, tm.v_mul(n, st)))
    p = np.empty((1,), dtype=object)
    p[0] = tm.mk('rownum', (d.row,), 'R')
    i = SymArray(p, (d,), 'i')
    out = start + i * step
    out.kind = kind
    c.requires(i <= asym(n) - 1)
    c.requires(out < stop)
    return out


class ShimLen(object):
    pass


def shim_len(x):
    if isinstance(x, SymArray):
        if not x.axes:
            raise TypeError('len() of unsized object')
        return x.axes[0] if isinstance(x.axes[0], int) else sa.dimlen(x.axes[0])
    if hasattr(x, '_symlen_'):
        return x._symlen_()
    return len(x)


def shim_max(*a, **k):
    if len(a) > 1 and has_sym(a):
        r = asym(a[0])
        for x in a[1:]:
            r = elementwise(_max, [r, asym(x)])
        return r
    if len(a) == 1 and isinstance(a[0], SymArray):
        return f_max(a[0])
    return max(*a, **k)


def shim_min(*a, **k):
    if len(a) > 1 and has_sym(a):
        r = asym(a[0])
        for x in a[1:]:
            r = elementwise(_min, [r, asym(x)])
        return r
    if len(a) == 1 and isinstance(a[0], SymArray):
        return f_min(a[0])
    return min(*a, **k)


def shim_range(*a):
    out = []
    for x in a:
        if isinstance(x, SymArray):
            x = int(x)
        out.append(x)
    return range(*out)


def shim_isinstance(x, cls):
    if isinstance(x, SymArray) and x.ndim == 0 and not isinstance(cls, type(ShimNdarray)):
        cl = cls if isinstance(cls, tuple) else (cls,)
        if float in cl and x.kind == 'f':
            return True
        if int in cl and x.kind == 'i':
            return True
        if bool in cl and x.kind == 'b':
            return True
    return isinstance(x, cls)


def shim_abs(x):
    return abs(x)


def shim_float(x=0.0):
    if isinstance(x, SymArray):
        return x.astype(float)
    return float(x)


SHIM_BUILTINS = {'len': shim_len, 'max': shim_max, 'min': shim_min, 'range': shim_range,
                 }
