"""P28: Telescope dither follows its documented pattern."""
import types
import numpy as np
import astropy.units as u
from transforms3d.quaternions import quat2mat
from astropy.table import Table
from marxsvc import table
from marxsvc.contract import contract
from marxs.missions.chandra import dither as di
from marxs.missions.chandra.dither import LissajousDither


def make(ctx, roll_dither=None):
    ra, dec = ctx.scalar('ra', .1, 6.), ctx.scalar('dec', -1.4, 1.4)
    roll = ctx.scalar('roll', -3., 3.)
    d = LissajousDither(coords=ctx.sky(ra, dec), roll=roll * u.rad)
    return d, ra, dec, roll


@contract('P28', 'pattern')
def pattern(ctx):
    """Offset in each axis at each time: amplitude times the sine of 2 pi times
    time over period plus phase; along ra divided by the cosine of declination."""
    N = ctx.dim('N', nonempty=True)
    t = ctx.array('t', (N,), 0., 5000.)
    ra, dec = ctx.scalar('ra', .1, 6.), ctx.scalar('dec', -1.4, 1.4)
    A, P, p = ctx.array('A', (3,), 0., 100.), ctx.array('P', (3,), 10., 2000.), ctx.array('phase', (3,), -3., 3.)
    kw = {}
    how = ctx.choose('parameters', ['all', 'amplitude', 'period', 'phase', 'default'])
    if how in ('all', 'amplitude'):
        kw['DitherAmp'] = A * u.arcsec
    else:
        A = np.array([8., 8., 0.])
    if how in ('all', 'period'):
        kw['DitherPeriod'] = P * u.s
    else:
        P = np.array([1000., 707., 1e5])
    if how in ('all', 'phase'):
        kw['DitherPhase'] = p * u.rad
    else:
        p = np.zeros(3)
    ctx.requires(ctx.lt(0., ctx.np.cos(dec)))
    d = LissajousDither(coords=ctx.sky(ra, dec), **kw)
    out = d.dither(t)
    out = out.to(u.arcsec).value
    if not ctx.shape_is('offsets', out, (N, 3)):
        return
    for i in range(3):
        want = A[i] * ctx.np.sin(2 * np.pi * t / P[i] + p[i])
        if i == 0:
            want = want / ctx.np.cos(dec)
        ctx.ensure('axis %d' % i, ctx.all(ctx.eq(out[:, i], want, tol=1e-6)))


def vec(ctx, lon, lat):
    c = ctx.np
    return [c.cos(lat) * c.sin(lon), c.cos(lat) * c.cos(lon), c.sin(lat)]


def turn_by(ctx, z, R):
    """matrix for a turn by R around the unit vector z (Rodrigues formula)"""
    c, s = ctx.np.cos(R), ctx.np.sin(R)
    K = [[0., -z[2], z[1]], [z[2], 0., -z[0]], [-z[1], z[0], 0.]]
    return [[(c if i == j else 0.) + s * K[i][j] + (1 - c) * z[i] * z[j] for j in range(3)]
            for i in range(3)]


@contract('P28', 'turn')
def turn(ctx):
    """Contract of transforms3d.axangle2mat, used in 'pointing': the matrix for a
    turn around a unit vector, which leaves lengths unchanged."""
    ra, dec = ctx.scalar('ra', .1, 6.), ctx.scalar('dec', -1.4, 1.4)
    R = ctx.scalar('angle', -4., 4.)
    z = vec(ctx, ra, dec)
    out = di.axangle2mat(ctx.np.array(z), R, is_normalized=True)
    want = turn_by(ctx, z, R)
    for i in range(3):
        for j in range(3):
            ctx.ensure('matrix', ctx.eq(out[i, j], want[i][j], tol=1e-9))
            ctx.ensure('lengths unchanged',
                       ctx.eq(sum(out[k, i] * out[k, j] for k in range(3)), float(i == j), tol=1e-9))


@contract('P28', 'pointing', sizes='1 to 3 times', max_paths=40,
          assumes=['a matrix which leaves lengths unchanged (proved in the contract "turn") '
                   'turns a unit vector to one with components in [-1, 1]'])
def pointing(ctx):
    """The pointing at a time is the nominal direction plus the offsets of this
    time, turned around the nominal direction by the roll of this time."""
    n = ctx.choose('n', [1, 2, 3])
    d, ra, dec, roll = make(ctx)
    off = ctx.array('off', (n, 3), -.05, .05)
    same = ctx.choose('roll', ['constant', 'varies'])
    if same == 'constant':
        off = ctx.np.stack([off[:, 0], off[:, 1], 0. * off[:, 1] + off[0, 2]], axis=1)
    elif n > 1:
        ctx.requires(ctx.lt(1e-3, abs(off[0, 2] - off[1, 2])))
        if n == 3 and ctx.choose('last', ['as first', 'any']) == 'as first':
            off = ctx.np.stack([off[:, 0], off[:, 1], ctx.np.stack([off[0, 2], off[1, 2], off[0, 2]])], axis=1)
    t = ctx.array('t', (n,), 0., 5000.)
    z = vec(ctx, ra, dec)
    e = [vec(ctx, ra + off[i, 0], dec + off[i, 1]) for i in range(n)]
    mats = []
    if ctx.mode == 'sym':
        def stub(axis, angle, is_normalized=False):
            M = ctx.array('mat%d' % len(mats), (3, 3))
            k = len(mats) if same == 'varies' else slice(None)
            for ei in ([e[k]] if same == 'varies' else e):
                ctx.requires(ctx.le(abs(sum(M[2, j] * ei[j] for j in range(3))), 1.))
            mats.append((axis, angle, M))
            return M
        ctx.stub(di, 'axangle2mat', stub)
    asked = []
    d.dither = lambda time: asked.append(time) or off * u.rad
    out = d.pointing(t)
    ctx.ensure('asked once', len(asked) == 1)
    ctx.ensure('dither at these times', ctx.all(ctx.eq(asked[0], t)))
    if not ctx.shape_is('ra, dec, roll for each time', out, (n, 3)):
        return
    if ctx.mode == 'sym':
        for M in mats:
            for k in range(3):
                ctx.ensure('turned around the nominal direction', ctx.eq(M[0][k], z[k]))
        if len(mats) == 1:
            mats = mats * n
        ctx.ensure('a turn for each time', len(mats) == n)
        if len(mats) != n:
            return
    for i in range(n):
        R = roll + off[i, 2]
        ctx.ensure('roll', ctx.eq(out[i, 2], R))
        if ctx.mode == 'sym':
            M = mats[i][2]
            ctx.ensure('turned by the roll', ctx.eq(mats[i][1], -R))
        else:
            M = np.array(turn_by(ctx, z, -R))
        want = [sum(M[k, j] * e[i][j] for j in range(3)) for k in range(3)]
        # the direction, as angles
        lon, lat = ctx.np.arctan2(want[0], want[1]), ctx.np.arccos(want[2])
        ctx.ensure('ra', ctx.eq(out[i, 0], lon % (2 * np.pi), tol=1e-8))
        ctx.ensure('dec', ctx.eq(out[i, 1], np.pi / 2 - lat, tol=1e-7))


@contract('P28', 'photons', sizes='1 to 3 photons')
def photons_dir(ctx):
    """Each photon is turned into the frame of the telescope at its own time."""
    n = ctx.choose('n', [1, 2, 3])
    d, _, _, _ = make(ctx)
    ra, dec = ctx.array('pra', (n,), .1, 6.), ctx.array('pdec', (n,), -1.4, 1.4)
    P = ctx.array('pointing', (n, 3), -1.4, 1.4)
    t = ctx.array('t', (n,), 0., 5000.)
    asked = []
    d.pointing = lambda time: asked.append(time) or P
    out = d.photons_dir(ctx.sky(ra, dec), t)
    ctx.ensure('asked once', len(asked) == 1)
    ctx.ensure('pointing at these times', ctx.all(ctx.eq(asked[0], t)))
    if not ctx.shape_is('one direction for each photon', out, (n, 4)):
        return
    c, s = ctx.np.cos, ctx.np.sin
    for i in range(n):
        # axes of the telescope: x to the sky position, y and z turned by the roll
        a, b, r = P[i, 0], P[i, 1], P[i, 2]
        x = [c(b) * c(a), c(b) * s(a), s(b)]
        y0 = [-s(a), c(a), 0.]
        z0 = [-s(b) * c(a), -s(b) * s(a), c(b)]
        y = [c(r) * y0[k] - s(r) * z0[k] for k in range(3)]
        z = [s(r) * y0[k] + c(r) * z0[k] for k in range(3)]
        v = [-c(dec[i]) * c(ra[i]), -c(dec[i]) * s(ra[i]), -s(dec[i])]
        for k, ax in enumerate((x, y, z)):
            ctx.ensure('direction', ctx.eq(out[i, k], sum(ax[j] * v[j] for j in range(3)), tol=1e-9))
        ctx.ensure('a direction', ctx.eq(out[i, 3], 0.))


@contract('P28', 'asol', sizes='observations of 0.5 to 2 s, 3 time steps', conc_s=4)
def asol(ctx):
    """The aspect solution gives at each time the pointing of this time, as angles
    and as a quaternion, with the times counted from the start of the observation."""
    exposure, step = ctx.choose('exposure', [.5, 1.1, 2.]), ctx.choose('step', [.256, .5, 1.])
    start = ctx.scalar('tstart', 0., 1e3)
    time = np.arange(0, exposure, step)
    n = len(time)
    d, _, _, _ = make(ctx)
    P = ctx.array('pointing', (n, 3), -1.4, 1.4)
    asked, written, mats = [], [], []
    d.pointing = lambda t: asked.append(t) or P
    photons = ctx.table(n, {}, {'EXPOSURE': (exposure, 'comment'), 'TSTART': (start, 'comment')})
    ctx.patch(di, 'complete_header', lambda header, *args: None)
    for T in (Table, table.SymTable):
        ctx.patch(T, 'write', lambda self, name, **kw: written.append((self, name)))
    q = ctx.array('quaternion', (n, 4), -1., 1.)
    if ctx.mode == 'sym':
        ctx.stub(di, 'mat2quat', lambda M: mats.append(M) or q[len(mats) - 1, :])
    d.write_asol(photons, 'file', timestep=step)
    ctx.ensure('written once', [w[1] for w in written] == ['file'])
    if len(written) != 1 or len(asked) == 0:
        return
    tab = written[0][0]
    c, s = ctx.np.cos, ctx.np.sin
    for i in range(n):
        ctx.ensure('pointing at these times', ctx.eq(asked[-1][i], time[i], tol=1e-9))
        ctx.ensure('time', ctx.eq(tab['time'][i], start + time[i], tol=1e-9))
        for k, name in enumerate(['ra', 'dec', 'roll']):
            ctx.ensure(name, ctx.eq(tab[name][i], P[i, k] * 180. / np.pi, tol=1e-9))
        a, b, r = P[i, 0], P[i, 1], P[i, 2]
        # axes of the telescope
        x = [c(b) * c(a), c(b) * s(a), s(b)]
        y0 = [-s(a), c(a), 0.]
        z0 = [-s(b) * c(a), -s(b) * s(a), c(b)]
        y = [c(r) * y0[k] - s(r) * z0[k] for k in range(3)]
        z = [s(r) * y0[k] + c(r) * z0[k] for k in range(3)]
        if ctx.mode == 'sym':
            M = mats[i]
            for k in range(4):
                ctx.ensure('quaternion', ctx.eq(tab['q_att'][i, k], q[i, k]))
        else:
            M = quat2mat(tab['q_att'][i])
        for k in range(3):
            for j, ax in enumerate((x, y, z)):
                ctx.ensure('attitude', ctx.eq(M[k, j], ax[k], tol=1e-9))
