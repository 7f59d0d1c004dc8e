"""P25: Response files keep the physics when compressed, written and read."""
import types
import numpy as np
import astropy.units as u
from marxsvc.contract import contract
from marxs.reduction import ogip, lsfparm
from marxs.reduction.ogip import RMF

KEYS = {'TELESCOP': 't', 'INSTRUME': 'i', 'FILTER': 'f'}


class Rows(object):
    """Contract of the table operations used: rows in order, columns by name."""

    def __init__(self, cols, meta=None):
        self.cols, self.meta = dict(cols), dict(meta or {})

    @property
    def colnames(self):
        return list(self.cols)

    def __len__(self):
        return len(list(self.cols.values())[0])

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.cols[k]
        k = int(k)
        return {c: v[k] for c, v in self.cols.items()}

    def __setitem__(self, k, v):
        if len(v) != len(self):
            raise ValueError('Inconsistent data column lengths')
        self.cols[k] = v


def objects(x):
    o = np.empty(len(x), dtype=object)
    for i, v in enumerate(x):
        o[i] = v
    return o


def edges(ctx, name, n):
    """n bins one after the other"""
    first = ctx.scalar(name + '0', .1, 1.)
    w = ctx.array(name + 'width', (n,), .01, 1.)
    e = [first]
    for i in range(n):
        e.append(e[-1] + w[i])
    e = ctx.np.stack([ctx.np.asarray(x) for x in e])
    return e[:-1], e[1:]


def values(ctx, name, shape, thr):
    """responses: some zero, some at the threshold"""
    return ctx.array(name, shape, 0., 1., gen=lambda r, s: r.uniform(0, 1, size=s) * r.choice([0., 1., 1.], size=s))


def kept(ctx, arr, thr):
    return ctx.np.where(arr > thr, arr, 0.)


def numbers(x):
    return [int(v) for v in x]


def expand(ctx, name, f, n, m, tlmin, channels):
    """the definition of the group form"""
    out = [0.] * channels
    k = 0
    ctx.ensure(name, len(f) == len(n) and sum(n) == len(m)
               and all(x >= 1 for x in n)
               and all(tlmin <= x and x + y <= tlmin + channels for x, y in zip(f, n)))
    for a, b in zip(f, n):
        for j in range(b):
            if 0 <= a - tlmin + j < channels and k < len(m):
                out[a - tlmin + j] = m[k]
            k += 1
    return out


@contract('P25', 'compress', sizes='1 to 5 channels')
def compress(ctx):
    """Groups hold exactly the elements above the threshold, in as few groups as
    possible, and expanding the groups gives these elements in their channels."""
    n = ctx.choose('n', [1, 2, 3, 5])
    tlmin = ctx.choose('tlmin', [0, 1, 7])
    thr = ctx.scalar('thr', 0., .9)
    arr = values(ctx, 'arr', (n,), thr)
    how = ctx.choose('threshold', ['given', 'default'])
    if how == 'default':
        thr = 1e-6
    ng, f, nc, m = RMF.arr_to_rmf_matrix_row(arr, tlmin, **({'threshold': thr} if how == 'given' else {}))
    f, nc = numbers(f), numbers(nc)
    ctx.ensure('number of groups', int(ng) == len(f))
    out = expand(ctx, 'groups inside the channels', f, nc, m, tlmin, n)
    ctx.ensure('groups do not touch', all(f[i] + nc[i] < f[i + 1] for i in range(len(f) - 1)))
    want = kept(ctx, arr, thr)
    for j in range(n):
        ctx.ensure('channel', ctx.eq(out[j], want[j]))


def response(ctx, R, n, tlmin):
    """RMF from arbitrary response values"""
    thr = ctx.scalar('thr', 0., .5)
    arr = values(ctx, 'arr', (R, n), thr)
    lo, hi = edges(ctx, 'E', R)
    elo, ehi = edges(ctx, 'C', n)
    row = [RMF.arr_to_rmf_matrix_row(arr[i], tlmin, threshold=thr) for i in range(R)]
    ng = np.array([int(r[0]) for r in row], dtype=np.int16)
    f, nc, m = [objects([numbers(r[j]) for r in row]) for j in (1, 2)] + [objects([list(r[3]) for r in row])]
    meta = dict(KEYS, CHANTYPE='PI', TLMIN4=tlmin)
    mat = {'ENERG_LO': lo * u.keV, 'ENERG_HI': hi * u.keV, 'N_GRP': ng, 'F_CHAN': f, 'N_CHAN': nc, 'MATRIX': m}
    eb = {'CHANNEL': np.arange(tlmin, tlmin + n, dtype=np.int32), 'E_MIN': elo * u.keV, 'E_MAX': ehi * u.keV}
    if ctx.mode == 'sym':
        rmf = RMF.__new__(RMF)
        rmf.matrix, rmf.ebounds = Rows(mat, meta), Rows(eb, dict(meta))
    else:
        from astropy.table import QTable, Table
        T = ctx.choose('table', [QTable, Table])
        eb = ogip.ColOrKeyTable(eb, meta=dict(meta, TLMIN1=tlmin))
        rmf = RMF(T(mat, meta=meta), eb)
    return rmf, kept(ctx, arr, thr), (lo, hi), (elo, ehi)


@contract('P25', 'expand', sizes='1 or 2 energies, 1 to 3 channels', max_paths=3000)
def expand_again(ctx):
    """Reading the response at an energy gives the values that went in, in their
    channels: before and after conversion to fixed length and from a file."""
    R, n = ctx.choose('size', [(1, 1), (1, 3), (2, 2)] if ctx.mode == 'sym' else [(1, 1), (1, 3), (1, 8), (2, 2), (3, 20), (9, 5)])
    tlmin = ctx.choose('tlmin', [0, 1, 40000])
    rmf, want, (lo, hi), (elo, ehi) = response(ctx, R, n, tlmin)
    how = ctx.choose('form', ['variable', 'fixed'] + (['file'] if ctx.mode == 'conc' else []))
    if how == 'fixed' or how == 'file':
        # a matrix without any group has no length to convert
        ctx.requires(any(len(x) > 0 for x in rmf.matrix['F_CHAN']))
    if how == 'fixed':
        rmf.variable_length_to_fixed_length()
    elif how == 'file':
        import tempfile, os
        with tempfile.TemporaryDirectory() as d:
            rmf.write(os.path.join(d, 'x.rmf'))
            rmf = RMF.read(os.path.join(d, 'x.rmf'))
    i = ctx.choose('energy', list(range(R)))
    w = ctx.scalar('inside', 0., .99)
    E = lo[i] + w * (hi[i] - lo[i])
    tol = 1e-6 if ctx.mode == 'conc' else None
    a, b, full = rmf.full_rmf(E * u.keV)
    if ctx.shape_is('one value for each channel', full, (n,)):
        ctx.ensure('all channels', ctx.all(ctx.eq(full, want[i], tol=tol)))
        ctx.ensure('energies', ctx.all(ctx.eq(a.to(u.keV).value, elo)) & ctx.all(ctx.eq(b.to(u.keV).value, ehi)))
    a, b, short = rmf.rmf(E * u.keV)
    ind = np.asarray([j for j in range(n) if bool(want[i, j] > 0)], dtype=int)
    if ctx.shape_is('one value for each channel with a response', short, (len(ind),)):
        ctx.shape_is('one energy for each of them', a.value, (len(ind),))
        if len(ind):
            ctx.ensure('their values', ctx.all(ctx.eq(short, want[i][ind], tol=tol)))
            ctx.ensure('their energies', ctx.all(ctx.eq(a.to(u.keV).value, elo[ind])) & ctx.all(ctx.eq(b.to(u.keV).value, ehi[ind])))


@contract('P25', 'row', sizes='1 to 4 energies')
def row(ctx):
    """The row for an energy (or wavelength) is the one whose range contains it;
    the lower end belongs to the range."""
    R = ctx.choose('R', [1, 2, 4])
    lo, hi = edges(ctx, 'E', R)
    rmf = RMF.__new__(RMF)
    rmf.matrix = Rows({'ENERG_LO': lo * u.keV, 'ENERG_HI': hi * u.keV, 'id': list(range(R))})
    i = ctx.choose('row', list(range(R)))
    unit = ctx.choose('unit', [u.keV, u.eV, u.Angstrom])
    if unit is u.keV:
        w = ctx.choose('place', [0., None])
        w = ctx.scalar('inside', 0., .999) if w is None else w
    else:
        # away from the edges, where rounding of the conversion could matter
        w = ctx.scalar('inside', .01, .99)
    E = (lo[i] + w * (hi[i] - lo[i])) * u.keV
    r = rmf.row(E if unit is u.keV else E.to(unit, equivalencies=u.spectral()))
    ctx.ensure('the row', r['id'] == i)


@contract('P25', 'bounds', sizes='1 to 3 channels')
def bounds(ctx):
    """Channels are numbered with energy, fill the range between the outermost
    edges without gap or overlap, and every edge given is an edge of a channel."""
    n = ctx.choose('n', [1, 2, 3])
    if ctx.mode == 'sym':
        from marxsvc.table import SymTable
        ctx.stub(ogip, 'ColOrKeyTable', SymTable)
    unit = ctx.choose('unit', [u.keV, u.eV, u.Angstrom, u.nm])
    # edges in any order, all different
    x = ctx.array('edge', (n + 1,), 1., 40.)
    for i in range(n + 1):
        for j in range(i):
            ctx.requires(ctx.lt(.001, abs(x[i] - x[j])))
    t = RMF.ebounds_from_edges(x * unit)
    lo, hi = [t[c].to(u.keV).value for c in ('E_MIN', 'E_MAX')]
    ch = t['CHANNEL']
    E = (x * unit).to(u.keV, equivalencies=u.spectral()).value
    if not ctx.shape_is('one row for each channel', lo, (n,)) or not ctx.shape_is('one row for each channel', ch, (n,)):
        return
    for i in range(n):
        ctx.ensure('width', ctx.lt(lo[i], hi[i]))
        ctx.ensure('channel number', ctx.eq(ch[i], i))
        if i:
            ctx.ensure('adjacent', ctx.eq(lo[i], hi[i - 1]))
    for i in range(n + 1):
        ctx.ensure('edge used', ctx.any(ctx.eq(E[i], hi[-1]), *[ctx.eq(E[i], lo[j]) for j in range(n)]))


@contract('P25', 'number_of_channels', sizes='1 to 5 energies and channels')
def number_of_channels(ctx):
    """The number of channels written in the headers is the number of channels."""
    R, n = ctx.choose('size', [(1, 1), (1, 4), (5, 2), (3, 3)])
    ctx.patch(ogip, '_check_col_and_type', lambda *a: None)
    a, b = Rows({'N_GRP': [0] * R}, KEYS), Rows({'CHANNEL': [0] * n}, KEYS)
    c, h = ctx.choose('CHANTYPE', ['PI', 'PHA']), ctx.choose('HDUCLAS3', [None, 'FULL'])
    rmf = RMF(a, b, CHANTYPE=c, HDUCLAS3=h)
    ctx.ensure('tables', rmf.matrix is a and rmf.ebounds is b)
    for t in (a, b):
        ctx.ensure('number of channels', t.meta['DETCHANS'] == n)
        ctx.ensure('keywords', t.meta['CHANTYPE'] == c and t.meta.get('HDUCLAS3') == h
                   and all(t.meta[k] == KEYS[k] for k in KEYS))


@contract('P25', 'make', sizes='1 or 2 channels', max_paths=3000,
          assumes=['the model from sherpa is a function of lower and upper wavelength of each bin'])
def make(ctx):
    """Row r of a new response holds the model at the middle wavelength of row r,
    each value in the channel with the wavelength range it was calculated for."""
    n = ctx.choose('n', [1, 2] if ctx.mode == 'sym' else [1, 2, 7])
    unit = ctx.choose('unit', [u.Angstrom, u.keV])
    x = ctx.array('edge', (n + 1,), 1., 4.)
    for i in range(n + 1):
        for j in range(i):
            ctx.requires(ctx.lt(1e-3, abs(x[i] - x[j])))
    thr = ctx.scalar('thr', 0., .5)
    g = ctx.userfunc('model', 0., 1.)
    width = ctx.scalar('width', .1, 2.) * u.deg
    seen = []
    meta = ctx.choose('keywords', [{'TELESCOP': 't', 'INSTRUME': 'i', 'FILTER': 'f', 'OTHER': 'o'}])
    line = types.SimpleNamespace(meta=dict(meta))
    ctx.patch(lsfparm, 'CALDB_interp', lambda row, **k: ('splines of', row))
    val = lambda q: q.to(u.Angstrom).value

    def spline(splines, wid, wav):
        seen.append((splines, wid))
        return lambda a, b: g(ctx.np.asarray(val(wav)) + 0. * val(a), val(a), val(b))
    ctx.patch(lsfparm, 'sherpa_from_spline', spline)
    if ctx.mode == 'sym':
        from marxsvc.table import SymTable
        ctx.stub(ogip, 'ColOrKeyTable', SymTable)
        ctx.stub(ogip, '_check_col_and_type', lambda *a: None)
        ctx.stub(lsfparm, 'Table', lambda names, data, units: Rows(dict(zip(names, data))))
    rmf = lsfparm.make_rmf(line, x * unit, width, threshold=thr)
    ctx.ensure('the response asked for', len(seen) == n and all(s == ('splines of', line) and w is width for s, w in seen))
    m, e = rmf.matrix, rmf.ebounds
    if len(m) != n or len(e) != n:
        ctx.ensure('one row and channel for each bin', False)
        return
    ctx.ensure('channels and rows have the same energies', ctx.all(ctx.eq(val2(m['ENERG_LO']), val2(e['E_MIN']))) & ctx.all(ctx.eq(val2(m['ENERG_HI']), val2(e['E_MAX']))))
    ang = lambda q: q.to(u.Angstrom, equivalencies=u.spectral()).value
    lo, hi = ang(e['E_MAX']), ang(e['E_MIN'])
    for t, c in ((m, 'F_CHAN'), (e, 'CHANNEL')):
        ctx.ensure('number of the first channel', t.meta['TLMIN%d' % (list(t.colnames).index(c) + 1)] == 0)
        ctx.ensure('keywords', all(t.meta[k] == KEYS[k] for k in KEYS) and t.meta['DETCHANS'] == n and t.meta['CHANTYPE'] == 'PHA')
    for r in range(n):
        mid = (lo[r] + hi[r]) / 2
        f, nc, mm = numbers(m['F_CHAN'][r]), numbers(m['N_CHAN'][r]), m['MATRIX'][r]
        ctx.ensure('number of groups', int(m['N_GRP'][r]) == len(f))
        out = expand(ctx, 'groups inside the channels', f, nc, mm, 0, n)
        want = kept(ctx, g(ctx.np.asarray(mid) + 0. * lo, lo, hi), thr)
        for j in range(n):
            ctx.ensure('model', ctx.eq(out[j], want[j], tol=1e-6))


def val2(q):
    return q.to(u.keV).value


class Widths(object):
    """Contract of the table operations used on the table of widths"""

    def __init__(self, ctx, cols):
        self.ctx, self.cols = ctx, dict(cols)

    @property
    def colnames(self):
        return list(self.cols)

    def __len__(self):
        return len(list(self.cols.values())[0])

    def __getitem__(self, k):
        return self.cols[k]

    def __setitem__(self, k, v):
        self.cols[k] = v

    def copy(self, copy_data=True):
        return Widths(self.ctx, self.cols)

    def sort(self, k):
        o = self.ctx.np.argsort(getattr(self.cols[k], 'value', self.cols[k]))
        self.cols = {c: v[o] for c, v in self.cols.items()}


@contract('P25', 'gauss', sizes='1 to 3 wavelengths')
def gauss(ctx):
    """A table of widths in wavelength or energy gives one Gauss curve for each
    entry, at its wavelength and with its width in wavelength, in order."""
    n = ctx.choose('n', [1, 2, 3])
    kind = ctx.choose('columns', ['wave', 'energy'])
    x = ctx.array('x', (n,), 1., 4.)
    s = ctx.array('s', (n,), .01, .1)
    for i in range(n):
        for j in range(i):
            ctx.requires(ctx.lt(1e-3, abs(x[i] - x[j])))
    if kind == 'wave':
        ux, us = ctx.choose('units', [(u.Angstrom, u.Angstrom), (u.nm, u.Angstrom)])
    else:
        ux, us = ctx.choose('units', [(u.keV, u.keV), (u.keV, u.eV)])
    cols = {kind: x * ux, 'sigma_' + kind: s * us}
    got = []
    ctx.patch(lsfparm, 'make_rmf', lambda *a, **k: got.append((a, k)))
    if ctx.mode == 'sym':
        tab = Widths(ctx, cols)

        class T(object):
            def __init__(self, cols, units):
                self.cols, self.meta, self.units = cols, {}, dict(zip(cols, units))

            def __getitem__(self, k):
                return {c: v[k] for c, v in self.cols.items()}
        ctx.stub(ogip, 'Table', T)
    else:
        from astropy.table import QTable, Table
        tab = ctx.choose('table', [QTable, Table])(cols)
    be = ctx.array('bins', (3,), 1., 4.) * u.Angstrom
    thr = ctx.scalar('thr', 0., .5)
    RMF.from_Gauss_sigma(be, tab, threshold=thr)
    ctx.ensure('made once', len(got) == 1)
    (row, bins, wid), k = got[0]
    ctx.ensure('threshold', ctx.eq(k['threshold'], thr))
    ctx.ensure('bins', ctx.all(ctx.eq(bins.to(u.Angstrom).value, be.to(u.Angstrom).value)))
    lam = row['LAMBDAS']
    lam = getattr(lam, 'value', lam)
    p = row['GAUSS1_PARMS']
    ctx.ensure('number of wavelengths', row['NUM_LAMBDAS'] == n and row['NUM_WIDTHS'] == 1)
    if not ctx.shape_is('parameters', p, (1, n, 3)) or not ctx.shape_is('wavelengths', lam, (n,)):
        return
    wave = (x * ux).to(u.Angstrom, equivalencies=u.spectral()).value
    sig = (s * us).to(u.Angstrom).value if kind == 'wave' else wave * (s * us).to(u.keV).value / x
    for i in range(n):
        ctx.ensure('position of the curve', ctx.eq(p[0, i, 2], lam[i]))
        ctx.ensure('height', ctx.eq(p[0, i, 0], 1.))
        ctx.ensure('width', ctx.any(*[ctx.eq(wave[j], lam[i]) & ctx.eq(sig[j], p[0, i, 1], tol=1e-6) for j in range(n)]))
        ctx.ensure('every entry used', ctx.any(*[ctx.eq(lam[j], wave[i]) for j in range(n)]))
        if i:
            ctx.ensure('in order', ctx.lt(lam[i - 1], lam[i]))


def rebased(cls, base):
    """The methods of a class, as they are, on another base class (the contract of
    the base): the class cell used by super() is the only thing replaced."""
    ns = {k: v for k, v in vars(cls).items() if not k.startswith('__') or k in ('__getitem__', '__setitem__')}
    new = type(cls.__name__, (base,), {})
    for k, v in ns.items():
        if isinstance(v, types.FunctionType):
            cl = v.__closure__ and tuple(types.CellType(new) if n == '__class__' else c for n, c in zip(v.__code__.co_freevars, v.__closure__))
            v = types.FunctionType(v.__code__, v.__globals__, k, v.__defaults__, cl)
        if k not in ('__dict__', '__weakref__'):
            setattr(new, k, v)
    return new


@contract('P25', 'column_or_keyword', sizes='1 to 3 rows, histories of 2 assignments')
def column_or_keyword(ctx):
    """What was assigned last is what is read: from the header if it is the same
    number in all rows, otherwise from the column; never from both."""
    from marxsvc.table import SymTable
    n = ctx.choose('n', [1, 2, 3])
    first = ctx.array('first', (n,), 0., 1.)
    if ctx.mode == 'sym':
        t = rebased(ogip.ColOrKeyTable, SymTable)()
        SymTable.__setitem__(t, 'first', first)
    else:
        t = ogip.ColOrKeyTable({'first': first})
    t.meta['KEPT'] = 'k'
    vals = []
    for i in range(2):
        what = ctx.choose('value %d' % i, ['number', 'array'])
        v = ctx.scalar('v%d' % i, -1., 1.) if what == 'number' else \
            ctx.array('a%d' % i, (n,), -1., 1., gen=lambda r, s: np.repeat(r.uniform(-1, 1), s[0]) if r.uniform() < .5 else r.uniform(-1, 1, size=s))
        t['x'] = v
        vals.append((what, v))
    what, v = vals[-1]
    const = what == 'number' or all(bool(v[j] == v[0]) for j in range(n))
    ctx.ensure('kept in one place', ('x' in t.meta) == const and ('x' in t.colnames) == (not const))
    got = t['x']
    if const:
        ctx.ensure('number', ctx.eq(got, v if what == 'number' else v[0]))
    else:
        if ctx.shape_is('column', got, (n,)):
            ctx.ensure('column', ctx.all(ctx.eq(got, v)))
    ctx.ensure('rest not changed', t.meta['KEPT'] == 'k' and 'first' in t.colnames)
