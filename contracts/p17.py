"""P17: random numbers from a tabulated distribution."""
import numpy as np
from marxsvc.contract import contract
from marxs.math.random import RandomArbitraryPdf


def tables(ctx, lo=2):
    n = ctx.count('n', lo, 7)
    x = ctx.seq('x', n, -10., 10., sorted=True)
    pdf = ctx.seq('pdf', n, 0., 5., gen=lambda r, s: r.uniform(0., 5., s) * (r.uniform(size=s) > .3))
    return n, x, pdf


@contract('P17', 'inverse_cdf')
def inverse(ctx):
    """For tables of any length: each uniform random number selects a bin of the
    table, the numbers that select it fill an interval of the length of the
    probability of the bin, every bin is selected by one interval only, and the
    value returned is in that bin at the place the second random number asks for."""
    N = ctx.dim('N', nonempty=True)
    n, x, pdf = tables(ctx)
    kw = ctx.choose('options', [{}, {'sort': False}, {'randomize_in_bin': False}, {'sort': False, 'randomize_in_bin': False}])
    within = kw.get('randomize_in_bin', True)
    if ctx.mode == 'conc':
        w = np.hstack([[0.], pdf[1:] * np.diff(x)])
        ctx.requires(w.sum() > 1e-3)
        m = 4000
        d = ctx.draws()
        d.replay_u = [(np.arange(m) + .5) / m, ctx.rng.uniform(size=m)]
        out = RandomArbitraryPdf(x, pdf, **kw)(m)
        ctx.ensure('one value for each photon', out.shape == (m,))
        # bins of zero width share their edge with the next one
        for j in range(1, n):
            if x[j] <= x[j - 1]:
                continue
            inside = (out >= x[j - 1]) & (out < x[j]) if within else out == x[j]
            expect = w[j] / w.sum()
            ctx.ensure('fraction of the numbers in a bin', abs(inside.mean() - expect) <= 3. / m)
            if within and inside.any():
                f, v = (out[inside] - x[j - 1]) / (x[j] - x[j - 1]), d.u[1][inside]
                ctx.ensure('position in the bin', bool(np.allclose(f, v) or np.allclose(f, 1 - v)))
        ctx.ensure('in the table', bool(np.all((out >= x[0]) & (out <= x[-1]))))
        return
    w = lambda j: pdf.at(j) * (x.at(j) - x.at(j - 1))
    f = RandomArbitraryPdf(x, pdf, **kw)
    ctx.requires(f.cdf[-1] > 0)
    d = ctx.draws()
    out = f(ctx.length(N))
    d.need(u=2 if within else 1)
    ctx.ensure('one search', len(ctx.searches) == 1)
    s = ctx.searches[0]
    C, k, v = s['sequence'], s['index'], s['value']
    ctx.shape_is('one value for each photon', out, (N,))
    ctx.ensure('the search is for a fraction of the total', ctx.any(*[ctx.eq(v, u * C[-1]) for u in d.u]))
    # the bin: the index itself, or its place in the order of the probabilities
    bins = [ctx.np.asarray(k)] + [p.at(k) for p in ctx.argsorts if p.permutation]
    lower = ctx.np.where(k < 1, 0., C.at(k - 1))
    ctx.ensure('the random number is in the interval of the bin', ctx.all(ctx.le(lower, v), ctx.cond(v < C.at(k))))
    good = []
    for j in bins:
        mass = ctx.np.where(j < 1, 0., w(j))
        a = ctx.eq(C.at(k) - lower, mass)
        if within:
            b = ctx.any(*[ctx.eq(out, x.at(j - 1) + (x.at(j) - x.at(j - 1)) * q) for u in d.u for q in (u, 1 - u)])
            c = ctx.all(ctx.le(x.at(j - 1), out), ctx.le(out, x.at(j)))
        else:
            b, c = ctx.eq(out, x.at(j)), ctx.eq(out, x.at(j))
        good.append([ctx.cond(j >= 1), a, ctx.cond(mass > 0), b, c])
    ctx.ensure_one('value in a bin with the probability of the bin', good)


@contract('P17', 'refused')
def refused(ctx):
    """Tables with different lengths, negative probabilities or bin edges that
    are not in order are refused."""
    case = ctx.choose('case', ['length', 'negative', 'order'])
    if case == 'length':
        n, m = ctx.count('n', 2), ctx.count('m', 2)
        ctx.requires(ctx.cond(n < m) if ctx.choose('which', [0, 1]) else ctx.cond(m < n))
        x, pdf = ctx.seq('x', n, -10., 10., sorted=True), ctx.seq('pdf', m, 0., 5.)
    else:
        n, j = ctx.count('n', 2), ctx.count('j', 1)
        ctx.requires(ctx.cond(j < n))
        if ctx.mode == 'conc':
            x, pdf = np.sort(ctx.rng.uniform(-10, 10, n)), ctx.rng.uniform(0, 5, n)
            if case == 'negative':
                pdf[j] = -1e-3
            else:
                x[j] = x[j - 1] - 1e-3
        else:
            x, pdf = ctx.seq('x', n, -10., 10., sorted=case != 'order'), ctx.seq('pdf', n, -5., 5.)
            if case == 'negative':
                ctx.requires(pdf.at(j) < 0)
            else:
                ctx.requires(x.at(j) < x.at(j - 1))
                x.at(j - 1), x.at(j)
    ctx.raises('refused', ValueError, RandomArbitraryPdf, x, pdf)
    if case == 'negative' and ctx.mode == 'sym':
        pdf.at(j)
