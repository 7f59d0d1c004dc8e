"""P29: Chandra event coordinates and headers describe the same events."""
import types
import numpy as np
from astropy.table import Table
from astropy.time import Time
from marxsvc import table
from marxsvc.contract import contract
from marxs.missions import chandra
from marxs.missions.chandra import data as cd
from marxs.missions.chandra import det_acis as da
from marxs.missions.chandra import chandra_global as cg
from marxs.missions.chandra import fitsheaders as fh
from marxs.missions.chandra.det_acis import ACIS, ACISChip

F = 10061.65


def chip_of(num, half=12.288):
    return ACISChip(pixsize=.024, zoom=[1., half, half], id_num=num)


def events(ctx, N):
    """photons that go from the pinhole at the focal length to the detector"""
    d = ctx.array('d', (N, 3), -1., 1.)
    ctx.requires(ctx.alltrue(ctx.lt(d[:, 0], -.05), axis=()))
    s = ctx.array('s', (N,), 5000., 20000.)
    p = ctx.np.stack([F + s * d[:, 0], s * d[:, 1], s * d[:, 2], 0. * s + 1.], axis=1)
    return d, s, p


@contract('P29', 'chip')
def chip(ctx):
    """Pixel coordinates count from 1 with the centre of the first pixel at 1,
    detector coordinates are angles seen from the focal length, sky coordinates are
    those turned by the roll of the observation; only photons that hit get values."""
    N = ctx.dim('N', nonempty=True)
    num = ctx.choose('chip', [0, 1, 2, 3, 7])
    half = ctx.choose('half width', [12.288, 6.])
    el = chip_of(num, half)
    d = ctx.array('p', (N, 3), -80., 80.)
    pos = ctx.hom(d, 1.)
    loc = ctx.array('loc', (N, 2), -12.288, 12.288)
    roll = ctx.scalar('roll', -400., 400.)
    hit = ctx.boolarray('hit', (N,))
    tdet = {}
    if ctx.mode == 'sym':
        t = []
        ctx.stub(da, 'chip2tdet', lambda c, system, i: t.append((c, system, i)) or c * 2. + 1.)
    photons = ctx.table(N, {}, {'ROLL_PNT': (roll, 'comment'), 'OBJECT': 'x'})
    pos0, loc0 = pos.copy(), loc.copy()
    out = el.specific_process_photons(photons, hit, pos, loc)
    ctx.ensure('columns', set(out) == {'chipx', 'chipy', 'tdetx', 'tdety', 'detx', 'dety', 'x', 'y'})
    if set(out) != {'chipx', 'chipy', 'tdetx', 'tdety', 'detx', 'dety', 'x', 'y'}:
        return
    ctx.ensure('positions not changed', ctx.all(ctx.eq(pos, pos0)))
    ctx.ensure('local coordinates not changed', ctx.all(ctx.eq(loc, loc0)))
    ctx.ensure('other keywords', photons.meta['OBJECT'] == 'x' and photons.meta['ROLL_PNT'][1] == 'comment')
    ctx.ensure('roll not changed', ctx.eq(photons.meta['ROLL_PNT'][0], roll))
    l, m = loc[hit], pos[hit]
    for k, name in enumerate(['chipx', 'chipy']):
        if not ctx.same_shape(name, out[name], l[:, k]):
            return
        # the lower edge is half a pixel before pixel 1
        ctx.ensure(name, ctx.all(ctx.eq(out[name], l[:, k] / .024 + round(half / .024) + .5, tol=1e-8)))
    if ctx.mode == 'sym':
        ctx.ensure('tiled once', len(t) == 1 and t[0][2] == num and t[0][1] is cd.TDET['ACIS'])
        if len(t) != 1:
            return
        for k, (a, b) in enumerate([('chipx', 'tdetx'), ('chipy', 'tdety')]):
            ctx.ensure('tiled from chip', ctx.all(ctx.eq(t[0][0][:, k], out[a])))
            ctx.ensure(b, ctx.all(ctx.eq(out[b], out[a] * 2. + 1.)))
    else:
        w = cd.chip2tdet(np.stack([out['chipx'], out['chipy']], axis=1).reshape((-1, 2)), cd.TDET['ACIS'], num)
        ctx.ensure('tdet', ctx.all(ctx.eq(out['tdetx'], w[:, 0]), ctx.eq(out['tdety'], w[:, 1])))
    dist, PIX = F - m[:, 0], ctx.np.deg2rad(.492 / 3600.)
    dx, dy = m[:, 1] / dist / PIX, -m[:, 2] / dist / PIX
    ctx.ensure('detx', ctx.all(ctx.eq(out['detx'], 4096.5 + dx, tol=1e-7)))
    ctx.ensure('dety', ctx.all(ctx.eq(out['dety'], 4096.5 + dy, tol=1e-7)))
    c, s = ctx.np.cos(ctx.np.deg2rad(roll)), ctx.np.sin(ctx.np.deg2rad(roll))
    ctx.ensure('sky x', ctx.all(ctx.eq(out['x'], 4096.5 + c * dx + s * dy, tol=1e-7)))
    ctx.ensure('sky y', ctx.all(ctx.eq(out['y'], 4096.5 - s * dx + c * dy, tol=1e-7)))


@contract('P29', 'sky')
def sky(ctx):
    """The sky coordinates together with the world coordinates of the header give the
    position on the sky the photon came from (gnomonic projection; the z axis of the
    telescope points to position angle roll, measured from north through east)."""
    N = ctx.dim('N', nonempty=True)
    d, s, pos = events(ctx, N)
    turned = ctx.choose('roll', ['zero', 'any'])
    roll = 0. if turned == 'zero' else ctx.scalar('roll', 10., 60.)
    el = chip_of(0)
    meta = {'ROLL_PNT': (roll, ''), 'RA_PNT': (10., ''), 'DEC_PNT': (20., ''), 'INSTRUME': ('ACIS', '')}
    photons = ctx.table(N, {}, meta)
    out = el.specific_process_photons(photons, ctx.np.ones(N, dtype=bool), pos, ctx.array('loc', (N, 2), -12., 12.))
    head = dict(meta)
    fh.add_evt_column_header(head, types.SimpleNamespace(colnames=['time', 'x', 'y']))
    yy, zz = d[:, 1] / d[:, 0], d[:, 2] / d[:, 0]
    c, q = ctx.np.cos(ctx.np.deg2rad(roll)), ctx.np.sin(ctx.np.deg2rad(roll))
    east, north = c * yy + q * zz, -q * yy + c * zz
    gx = (out['x'] - head['TCRPX2']) * ctx.np.deg2rad(head['TCDLT2'])
    gy = (out['y'] - head['TCRPX3']) * ctx.np.deg2rad(head['TCDLT3'])
    name = 'position without roll' if turned == 'zero' else 'position for any roll'
    ctx.ensure(name, ctx.all(ctx.eq(gx, east, tol=1e-8), ctx.eq(gy, north, tol=1e-8)))


@contract('P29', 'tiled')
def tiled(ctx):
    """Chip coordinates are turned, scaled and moved to the place of this chip: the
    lower left corner (0.5, 0.5) of a chip comes to its origin plus 0.5."""
    N = ctx.dim('N', nonempty=True)
    c = ctx.array('chip', (N, 2), -10., 1040.)
    th, o = ctx.array('theta', (3,), -4., 4.), ctx.array('origin', (3, 2), 0., 8000.)
    sc = ctx.array('scale', (3,), .1, 5.)
    hand = np.array([1., -1., 1.])
    i = ctx.choose('number', [0, 1, 2])
    c0 = c.copy()
    out = cd.chip2tdet(c, {'theta': th, 'origin': o, 'scale': sc, 'handedness': hand}, i)
    if not ctx.shape_is('a place for each', out, (N, 2)):
        return
    ctx.ensure('chip not changed', ctx.all(ctx.eq(c, c0)))
    co, si = ctx.np.cos(th[i]), ctx.np.sin(th[i])
    x, y = c[:, 0] - .5, c[:, 1] - .5
    f = sc[i] * hand[i]
    ctx.ensure('x', ctx.all(ctx.eq(out[:, 0], f * (co * x + si * y) + o[i, 0] + .5, tol=1e-8)))
    ctx.ensure('y', ctx.all(ctx.eq(out[:, 1], f * (co * y - si * x) + o[i, 1] + .5, tol=1e-8)))
    r = ctx.array('r', (2,), -10., 1040.)
    dist2 = (out[:, 0] - o[i, 0] - .5) ** 2 + (out[:, 1] - o[i, 1] - .5) ** 2
    ctx.ensure('lengths', ctx.all(ctx.eq(dist2, sc[i] ** 2 * (x ** 2 + y ** 2), tol=1e-3)))


def corners():
    return ACIS.get_corners(types.SimpleNamespace())


@contract('P29', 'layout')
def layout(ctx):
    """Tiled coordinates are laid out like the chips: each chip lies within ten
    pixels of its place in the focal plane, with y and z along the axes."""
    N = ctx.dim('N', nonempty=True)
    num = ctx.choose('chip', list(range(10)))
    f = ctx.array('f', (N, 2), 0., 1.)
    ref = 3 if num < 4 else 6
    at = corners()

    def place(i, f):
        k = at[i]
        return [k['LL'][j] + f[:, 0] * (k['LR'][j] - k['LL'][j]) + f[:, 1] * (k['UL'][j] - k['LL'][j]) for j in (1, 2)]
    out = cd.chip2tdet(f * 1024. + .5, cd.TDET['ACIS'], num)
    p = place(num, f)
    # the reference is a corner of another chip of the same array
    k = at[ref]['LL']
    o = cd.TDET['ACIS']['origin'][ref]
    for j in (0, 1):
        ctx.ensure('at the place of the chip',
                   ctx.all(ctx.le(abs((out[:, j] - o[j]) - (p[j] - k[j + 1]) / .024), 12.)))


@contract('P29', 'elements')
def elements(ctx):
    """The unit square of each chip is mapped to its corners, moved by the origin of
    the instrument and the aim point and against the offset of the detector."""
    aim = ctx.array('aim', (3,), -300., 300.)
    off = ctx.array('off', (3,), -50., 50.)
    at = corners()
    out = ACIS.calculate_elempos(types.SimpleNamespace(
        get_corners=lambda: corners(), OLSI=ACIS.OLSI, aimpoint=aim, detoffset=off))
    ctx.ensure('ten chips', len(out) == 10)
    if len(out) != 10:
        return
    for i in range(10):
        M = out[i]
        shift = [(.684, .750, 236.552)[k] + aim[k] - off[k] for k in range(3)]
        for name, y, z in [('LL', -1, -1), ('LR', 1, -1), ('UL', -1, 1), ('UR', 1, 1)]:
            for k in range(3):
                # the fourth corner in the table is rounded
                tol = 1e-9 if name != 'UR' else .005
                ctx.ensure('corner ' + name, ctx.le(abs(M[k, 3] + y * M[k, 1] + z * M[k, 2]
                                                        - at[i][name][k] - shift[k]), tol))
        ctx.ensure('normal', ctx.le(abs(sum(M[k, 0] ** 2 for k in range(3)) - 1.), 1e-9))
        for j in (1, 2):
            ctx.ensure('normal', ctx.le(abs(sum(M[k, 0] * M[k, j] for k in range(3))), 1e-9))
        for k in range(4):
            ctx.ensure('a placement', ctx.eq(M[3, k], float(k == 3)))


@contract('P29', 'instrument', bounded='four sets of chips, two aim points, three offsets', conc_s=4)
def instrument(ctx):
    """The instrument has the chips asked for, each at its own place, and the header
    of processed events tells detector, chips and position of the instrument."""
    chips = ctx.choose('chips', [[0, 1, 2, 3], [7], [3, 1], [2, 3, 5, 6, 7, 8]])
    aim = ctx.choose('aim', ['ACIS-I', 'ACIS-S'])
    kw = ctx.choose('offset', [{}, {'DetOffsetX': .5}, {'DetOffsetX': -.25, 'DetOffsetY': 2.}])
    off = np.array([kw.get('DetOffsetX', 0.), 0., kw.get('DetOffsetY', 0.)])
    acis = ACIS(chips=list(chips), aimpoint=cd.AIMPOINTS[aim], **kw)
    a = np.array(cd.AIMPOINTS[aim])
    ctx.ensure('chips', [e.id_num for e in acis.elements] == list(chips))
    ctx.ensure('names', [e.chip_name for e in acis.elements] ==
               ['ACIS-' + ('I%d' % c if c < 4 else 'S%d' % (c - 4)) for c in chips])
    at = corners()
    for e, c in zip(acis.elements, chips):
        mid = at[c]['LL'] / 2 + at[c]['UR'] / 2
        want = mid + np.array([.684, .750, 236.552]) + a - off
        ctx.ensure('place', bool(np.all(abs(e.pos4d[:3, 3] - want) < .01)))
        ctx.ensure('pixels', list(e.npix) == [1024, 1024] and e.pixsize == .024)
    n = ctx.dim('N', nonempty=True)
    seen = []
    acis.elements = [lambda p, *args, **kwargs: seen.append(p) or p]
    photons = ctx.table(n, {'energy': ctx.array('energy', (n,), 1., 2.)}, {'OBJECT': 'x'})
    out = acis(photons)
    ctx.ensure('events processed', len(seen) == 1)
    meta = out.meta
    for key in ('INSTRUME', 'DETNAM', 'SIM_X', 'SIM_Y', 'SIM_Z'):
        ctx.ensure('keyword ' + key, key in meta)
        if key not in meta:
            return
    val = {k: (v[0] if isinstance(v, tuple) else v) for k, v in meta.items()}
    ctx.ensure('instrument', meta['INSTRUME'][0] == 'ACIS')
    ctx.ensure('chips in use', val['DETNAM'] == 'ACIS-' + ''.join(str(c) for c in chips))
    for k, key in enumerate(['SIM_X', 'SIM_Y', 'SIM_Z']):
        ctx.ensure('position of the instrument', abs(val[key] - (a - off)[k]) < 1e-9)
    ctx.ensure('other keywords', val['OBJECT'] == 'x')


@contract('P29', 'observatory')
def observatory(ctx):
    """Events that went through the observatory name it, and went through all parts."""
    n = ctx.dim('N', nonempty=True)
    seen = []
    tel = cg.Chandra(elements=[lambda p: seen.append(1) or p, lambda p: seen.append(2) or p])
    photons = ctx.table(n, {'energy': ctx.array('energy', (n,), 1., 2.)}, {'OBJECT': 'x'})
    out = tel(photons)
    ctx.ensure('all parts', seen == [1, 2])
    ctx.ensure('mission', out.meta.get('MISSION', [''])[0] == 'AXAF' and out.meta.get('TELESCOP', [''])[0] == 'CHANDRA')
    ctx.ensure('other keywords', out.meta['OBJECT'] == 'x')


LIMITS = {'CCD_ID': [0, 9], 'CHIPX': [2, 1023], 'CHIPY': [2, 1023], 'TDETX': [2, 8191], 'TDETY': [2, 8191],
          'DETX': [.5, 8192.5], 'DETY': [.5, 8192.5], 'X': [.5, 8192.5], 'Y': [.5, 8192.5],
          'ENERGY': [0, 1e6], 'PHA': [0, 36855], 'FLTGRADE': [0, 255]}
GROUPED = ('TCTYP', 'TCRVL', 'TCDLT', 'TCRPX', 'TLMIN', 'TLMAX')


@contract('P29', 'columns')
def columns(ctx):
    """Keywords that describe a column have the number of this column, none is left
    from an earlier order of the columns, and other keywords are not touched."""
    names = ctx.choose('names', [['time', 'x', 'y', 'energy'], ['Y', 'X', 'CHIPX', 'chipy', 'CCD_ID'], ['time', 'chipx', 'flux', 'chipy', 'dety', 'detx', 'x', 'energy', 'y'],
                                 ['x', 'pha', 'other', 'tdetx', 'tdety', 'detx', 'dety', 'fltgrade', 'y', 'pos']])
    ra, dec = ctx.scalar('ra', 0., 360.), ctx.scalar('dec', -90., 90.)
    start = {'RA_PNT': (ra, 'comment'), 'DEC_PNT': (dec, 'comment'), 'OBJECT': ('x', 'y'), 'INSTRUME': ('ACIS', '')}
    if ctx.choose('header', ['new', 'used']) == 'used':
        start.update({g + str(i): 'old' for g in GROUPED for i in (1, 2, 7, 12)})
        start['TCOMM1'] = 'kept'
        start['TLM'] = 'kept'
    head = dict(start)
    fh.add_evt_column_header(head, types.SimpleNamespace(colnames=list(names)))
    want = {}
    for i, n in enumerate(names):
        if n.upper() in LIMITS:
            want['TLMIN%d' % (i + 1)], want['TLMAX%d' % (i + 1)] = LIMITS[n.upper()]
    got = {k: v for k, v in head.items() if k[:5] in ('TLMIN', 'TLMAX')}
    ctx.ensure('limits of columns', got == want)
    up = [n.upper() for n in names]
    for n, typ, val, sign in (('X', 'RA---TAN', ra, -1.), ('Y', 'DEC--TAN', dec, 1.)):
        i = str(up.index(n) + 1)
        ctx.ensure('projection', head.get('TCTYP' + i) == typ)
        ok = all(g + i in head for g in ('TCRVL', 'TCDLT', 'TCRPX'))
        ctx.ensure('world coordinates present', ok)
        if not ok:
            return
        v = head['TCRVL' + i]
        ctx.ensure('pointing', ctx.eq(v[0] if isinstance(v, (tuple, list)) else v, val))
        ctx.ensure('pixel size', abs(head['TCDLT' + i] * 3600. - sign * .492) < 1e-9)
        ctx.ensure('pixel of the pointing', head['TCRPX' + i] == 4096.5)
    ctx.ensure('only for x and y', {k for k in head if k[:5] in GROUPED[:4]} ==
               {g + str(up.index(n) + 1) for g in GROUPED[:4] for n in 'XY'})
    for k in start:
        if k[:5] not in GROUPED:
            ctx.ensure('other keywords', head.get(k) is start[k])
    ctx.ensure('groups', [head.get('MFORM%d' % i) for i in range(1, 6)] ==
               ['chipx,chipy', 'tdetx,tdety', 'detx,dety', 'x,y', 'RA,DEC'])
    bad = dict(start)
    bad['INSTRUME'] = ('HRC', '')
    ctx.raises('unknown detector', KeyError, lambda: fh.add_evt_column_header(
        bad, types.SimpleNamespace(colnames=list(names))))
    ctx.raises('same name in upper case', KeyError, lambda: fh.add_evt_column_header(
        dict(start), types.SimpleNamespace(colnames=list(names) + [names[0].swapcase()])))


@contract('P29', 'complete')
def complete(ctx):
    """Keywords already set keep their value, missing ones are filled in from the
    exposure time, the start date and the kind of file."""
    expo = ctx.scalar('exposure', 1., 1e5)
    start = {'EXPOSURE': (expo, ''), 'EXTNAME': 'EVENTS'}
    mine = ctx.choose('set before', [{}, {'MISSION': 'mine', 'CONTENT': 'mine'}, {'OBSERVER': 'me', 'HDUCLASS': 'mine'},
                                     {'ONTIME': 3., 'HDUNAME': 'mine', 'FOC_LEN': 1.}])
    h = dict(start, **mine)
    cls = ctx.choose('class', [['OGIP', 'EVENTS', 'ALL'], ['ASC'], ['a', 'b', 'c', 'd']])
    fh.complete_CC(h, content='EVT1', hduclass=cls)
    fh.complete_O(h)
    want = {'CONTENT': 'EVT1', 'HDUNAME': 'EVENTS', 'ORIGIN': 'ASC', 'MISSION': 'AXAF', 'TELESCOP': 'CHANDRA',
            'ONTIME': expo, 'LIVETIME': expo, 'FOC_LEN': F, 'OBSERVER': 'MARXS', 'GRATING': 'NONE'}
    want.update(zip(['HDUCLASS', 'HDUCLAS1', 'HDUCLAS2', 'HDUCLAS3'], cls))
    want.update(mine)
    for k, v in want.items():
        got = h.get(k)
        got = got[0] if isinstance(got, tuple) else got
        ctx.ensure('keyword ' + k, got is not None and (got == v if isinstance(v, str) else ctx.eq(got, v)))
    ctx.ensure('no other class', ('HDUCLAS3' in h) == (len(cls) == 4) and ('HDUCLAS1' in h) == (len(cls) > 1))
    ctx.ensure('exposure', h['EXPOSURE'] is start['EXPOSURE'])


@contract('P29', 'times', sizes='three exposures and start dates', conc_s=3)
def times(ctx):
    """Start and stop time belong to the start date in the header and are one
    exposure apart."""
    expo = ctx.choose('exposure', [1., 1234.5, 86400.])
    date = ctx.choose('date', [None, '2003-04-05T06:07:08.900', '1998-01-01T00:00:00.000'])
    h = {'EXPOSURE': (expo, '')}
    if date is not None:
        h['DATE-OBS'] = (date, 'mine')
    before = Time.now()
    fh.complete_T(h)
    after = Time.now()
    ctx.ensure('exposure', abs(h['TSTOP'][0] - h['TSTART'][0] - expo) < 1e-5)
    t = Time(h['DATE-OBS'][0], format='isot', scale='utc')
    if date is not None:
        ctx.ensure('date kept', h['DATE-OBS'] == (date, 'mine'))
    else:
        ctx.ensure('date is now', abs((t - before).sec) < 60. + (after - before).sec)
    ctx.ensure('start is the date', abs(t.cxcsec - h['TSTART'][0]) < 1e-3)
    ctx.ensure('day', abs(h['OBS-MJD'] - t.mjd) < 1e-8)


@contract('P29', 'order', sizes='event lists with 3 to 14 columns')
def order(ctx):
    """Sorting columns keeps every column with its values; coordinate pairs come
    first, x before y, in the order chip, tdet, det, sky, and the rest is sorted."""
    N = ctx.dim('N', nonempty=True)
    names = ctx.choose('names', [['y', 'energy', 'x'], ['time', 'dety', 'tdetx', 'chipy', 'detx', 'y', 'x', 'tdety', 'chipx'],
                                 ['b', 'dec', 'a', 'ra', 'energy', 'y', 'x', 'flux', 'CCD_ID'],
                                 ['RA', 'DEC', 'skyx', 'x', 'skyy', 'y', 'dety', 'detx', 'pos', 'dir', 'probability', 'time', 'ax', 'by']])
    cols = {n: ctx.array('c_' + n, (N,), -1., 1.) for n in names}
    photons = ctx.table(N, dict(cols), {'OBJECT': 'x'})
    out = fh.sort_columns(photons)
    got = list(out.colnames)
    ctx.ensure('all columns', sorted(got) == sorted(names) and len(set(got)) == len(got))
    if sorted(got) != sorted(names):
        return
    for n in names:
        ctx.ensure('values', ctx.all(ctx.eq(ctx.column(out, n), cols[n])))
    ctx.ensure('header', out.meta.get('OBJECT') == 'x')
    ctx.ensure('event list not changed', list(photons.colnames) == names)
    pairs = [p for p in ('chip', 'tdet', 'det', '') if p + 'x' in names and p + 'y' in names]
    want = [p + e for p in pairs for e in 'xy']
    ctx.ensure('pairs first', got[:len(want)] == want)
    if 'skyx' in names:
        want += ['skyx', 'skyy']
    want += [n for n in ('ra', 'dec', 'RA', 'DEC') if n in names]
    want += sorted(set(names) - set(want))
    ctx.ensure('order', got == want)


@contract('P29', 'file', conc_s=4)
def file(ctx):
    """An event file has the events unchanged, with a complete header of an event
    list for the columns as they are written."""
    N = ctx.dim('N', nonempty=True)
    names = ctx.choose('names', [['time', 'ra', 'dec', 'x', 'y'], ['chipy', 'detx', 'ra', 'chipx', 'y', 'dety', 'x', 'dec'], ['x', 'dec', 'ra', 'chipx', 'chipy', 'y']])
    cols = {n: ctx.array('c_' + n, (N,), -1., 1.) for n in names}
    photons = ctx.table(N, dict(cols), {
        'OBJECT': 'x', 'EXPOSURE': (100., ''), 'INSTRUME': ('ACIS', ''), 'RA_PNT': (1., ''), 'DEC_PNT': (2., '')})
    written = []
    for T in (Table, table.SymTable):
        ctx.patch(T, 'write', lambda self, name, *args, **kw: written.append((self, name)))
    cg.Chandra(elements=[]).write_evt(photons, 'file')
    ctx.ensure('written once', [w[1] for w in written] == ['file'])
    if len(written) != 1:
        return
    tab = written[0][0]
    sky = {'ra': 'marxs_ra', 'dec': 'marxs_dec'}
    ctx.ensure('columns', sorted(tab.colnames) == sorted(sky.get(n, n) for n in names))
    if sorted(tab.colnames) != sorted(sky.get(n, n) for n in names):
        return
    for n in names:
        ctx.ensure('values', ctx.all(ctx.eq(ctx.column(tab, sky.get(n, n)), cols[n])))
    h = {k: (v[0] if isinstance(v, tuple) else v) for k, v in tab.meta.items()}
    order = list(tab.colnames)
    for n, typ in (('x', 'RA---TAN'), ('y', 'DEC--TAN')):
        ctx.ensure('world coordinates', h.get('TCTYP%d' % (order.index(n) + 1)) == typ)
    for i, n in enumerate(order):
        ctx.ensure('limits', h.get('TLMAX%d' % (i + 1)) == LIMITS.get(n.upper(), [0, None])[1])
    for k, v in (('EXTNAME', 'EVENTS'), ('HDUNAME', 'EVENTS'), ('CONTENT', 'EVT1'), ('HDUCLASS', 'OGIP'),
                 ('HDUCLAS1', 'EVENTS'), ('HDUCLAS2', 'ALL'), ('MISSION', 'AXAF'), ('OBJECT', 'x'), ('TIMESYS', 'TT')):
        ctx.ensure('keyword ' + k, h.get(k) == v)
    ctx.ensure('times', abs(h['TSTOP'] - h['TSTART'] - 100.) < 1e-5)
