"""Symbolic stand-in for astropy.coordinates.SkyCoord and SkyOffsetFrame.

Contract assumed of astropy.coordinates (its documentation): a coordinate is a
point on the unit sphere; an offset frame is the ICRS turned such that its x
axis points to the origin and its z axis to position angle ``rotation`` there
(measured from North through East); all other frames in the code under
verification are ICRS.  Longitudes are given modulo 360 degrees.  Every contract
that uses it also runs with the real astropy."""
import numpy as np
import astropy.units as u
from astropy import coordinates as _real
from . import npshim, symarr as sa, terms as tm
from .symarr import SymArray, asym
from .symq import SymQ, split, scaled, DIMLESS
from .terms import Unsupported


def _np():
    from . import load
    return load.shims()['np']


def _rad(x, unit=None):
    v, un = split(x)
    if un == DIMLESS:
        if unit is None:
            raise u.UnitsError('Longitude/Latitude without unit')
        un = u.Unit(unit)
    return scaled(v, un, u.rad)


def direction(lon, lat):
    """unit vector for longitude and latitude (list of three arrays).  For a unit
    vector (x, y, z) the angles atan2(y, x) and asin(z) give back x, y, z."""
    n = _np()
    lon, lat = n.broadcast_arrays(asym(lon), asym(lat))
    cb = n.cos(lat)
    out = [cb * n.cos(lon), cb * n.sin(lon), n.sin(lat)]
    c = npshim.ctx()
    p = [x.p.copy() for x in out]
    hit = False
    for i in np.ndindex(*lon.p.shape):
        a, b = lon.p[i], lat.p[i]
        ra, rb = tm.R(tm.tosortR(a)), tm.R(tm.tosortR(b))
        if ra.op != 'atan2' or rb.op != 'asin':
            continue
        v = [ra.args[1], ra.args[0], rb.args[0]]
        try:
            rf = c.nfe.nf(tm._sum([tm.t_mul(x, x) for x in v] + [tm.MONE]))
        except Exception:
            continue
        if rf.num:
            continue
        hit = True
        nan, inf = tm.b_or(tm.N(a), tm.N(b)), tm.FALSE
        for k in range(3):
            p[k][i] = v[k] if nan is tm.FALSE else tm.mkval(v[k], nan, inf)
    return [SymArray(q, lon.axes, 'f') for q in p] if hit else out


def is_real(x):
    return isinstance(x, _real.SkyCoord)


def wrap(x):
    """concrete SkyCoord -> symbolic one"""
    return SymSky(asym(np.asarray(x.icrs.ra.rad)), asym(np.asarray(x.icrs.dec.rad))) if is_real(x) else x


class SymOffset(object):
    """SkyOffsetFrame"""

    def __init__(self, origin=None, rotation=None):
        self.origin = wrap(origin)
        self.rotation = rotation
        if self.origin.frame is not None:
            raise Unsupported('offset frame in an offset frame')

    def matrix(self):
        """rows are the axes of the frame in ICRS coordinates"""
        n = _np()
        rot = asym(0.) if self.rotation is None else _rad(self.rotation, u.deg)
        lon, lat = self.origin.lon, self.origin.lat
        cl, sl, cb, sb = n.cos(lon), n.sin(lon), n.cos(lat), n.sin(lat)
        cr, sr = n.cos(rot), n.sin(rot)
        X = [cb * cl, cb * sl, sb]
        N = [-sb * cl, -sb * sl, cb]
        E = [-sl, cl, asym(0.)]
        Z = [cr * a + sr * b for a, b in zip(N, E)]
        Y = [cr * b - sr * a for a, b in zip(N, E)]
        return [X, Y, Z]


class _Cart(object):
    def __init__(self, xyz):
        self._v = xyz

    @property
    def xyz(self):
        return SymQ(_np().stack(self._v), DIMLESS)

    x = property(lambda s: SymQ(s._v[0], DIMLESS))
    y = property(lambda s: SymQ(s._v[1], DIMLESS))
    z = property(lambda s: SymQ(s._v[2], DIMLESS))


class SymSky(object):
    """SkyCoord; frame is None for ICRS"""
    __hash__ = None

    def __init__(self, lon=None, lat=None, frame=None, xyz=None):
        self.frame = frame
        if xyz is None:
            lon, lat = _np().broadcast_arrays(asym(lon), asym(lat))
        self._lon, self._lat, self._xyz = lon, lat, xyz

    @property
    def vec(self):
        if self._xyz is None:
            self._xyz = direction(self._lon, self._lat)
        return self._xyz

    @property
    def lon(self):
        if self._lon is None:
            self._lon = _np().arctan2(self.vec[1], self.vec[0])
        return self._lon

    @property
    def lat(self):
        if self._lat is None:
            # no NaN: the components of a coordinate are those of a unit vector
            z = self.vec[2]
            p = np.empty(z.p.shape, object)
            for i in np.ndindex(*p.shape):
                v = z.p[i]
                p[i] = tm.mk('asin', (v,), 'R') if isinstance(v, tm.T) else tm.mkval(tm.mk('asin', (v.r,), 'R'), v.nan, tm.FALSE)
            self._lat = SymArray(p, z.axes, 'f')
        return self._lat

    @property
    def shape(self):
        return (self._lon if self._xyz is None else self._xyz[0]).shape

    @property
    def isscalar(self):
        return len(self.shape) == 0

    ra = property(lambda s: SymQ(s._need_icrs().lon, u.rad).to(u.deg))
    dec = property(lambda s: SymQ(s._need_icrs().lat, u.rad).to(u.deg))

    def _need_icrs(self):
        if self.frame is not None:
            raise AttributeError('ra')
        return self

    @property
    def icrs(self):
        return self.transform_to(None)

    @property
    def cartesian(self):
        return _Cart(self.vec)

    def skyoffset_frame(self, rotation=None):
        return SymOffset(origin=self, rotation=rotation)

    def transform_to(self, target):
        if is_real(target):
            target = wrap(target)
        f = target.frame if isinstance(target, SymSky) else target
        if not (f is None or isinstance(f, SymOffset)):
            if isinstance(f, type) and f is _real.ICRS or isinstance(f, _real.ICRS) or f == 'icrs':
                f = None
            else:
                raise Unsupported('coordinate frame %r' % (f,))
        if f is self.frame:
            return self
        v = self.vec
        if self.frame is not None:
            M = self.frame.matrix()
            v = [v[0] * M[0][i] + v[1] * M[1][i] + v[2] * M[2][i] for i in range(3)]
        if f is not None:
            M = f.matrix()
            v = [M[i][0] * v[0] + M[i][1] * v[1] + M[i][2] * v[2] for i in range(3)]
        return SymSky(frame=f, xyz=v)

    def __len__(self):
        return len(self.vec[0])

    def _symlen_(self):
        from . import npshim
        return npshim.shim_len(self.vec[0])

    def __getitem__(self, k):
        return SymSky(frame=self.frame, xyz=[x[k] for x in self.vec])


class _SkyMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymSky, _real.SkyCoord))

    def __call__(cls, *a, unit=None, frame=None, **k):
        from .npshim import has_sym
        def sym(x):
            return isinstance(x, (SymSky, SymOffset, SymQ, SymArray)) or has_sym(x)
        if not any(sym(x) for x in a + (frame,) + tuple(k.values())):
            return _real.SkyCoord(*a, unit=unit, frame=frame, **k) if frame is not None else _real.SkyCoord(*a, unit=unit, **k)
        if len(a) == 1 and isinstance(a[0], SymSky) and frame is None:
            return a[0]
        if 'ra' in k:
            a = a + (k.pop('ra'),)
        if 'dec' in k:
            a = a + (k.pop('dec'),)
        if len(a) != 2 or k:
            raise Unsupported('SkyCoord(%d arguments, %s)' % (len(a), sorted(k)))
        frame = wrap(frame)
        f = frame.frame if isinstance(frame, SymSky) else frame
        if not (f is None or isinstance(f, SymOffset)):
            if f == 'icrs' or isinstance(f, _real.ICRS) or f is _real.ICRS:
                f = None
            else:
                raise Unsupported('coordinate frame %r' % (f,))
        un = u.Unit(unit) if unit is not None else None
        return SymSky(_rad(a[0], un), _rad(a[1], un), f)


class SkyShim(object, metaclass=_SkyMeta):
    pass


class _OffMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymOffset, _real.SkyOffsetFrame))

    def __call__(cls, origin=None, rotation=None, **k):
        from .npshim import has_sym
        if isinstance(origin, SymSky) or has_sym([rotation]):
            return SymOffset(origin, rotation)
        return _real.SkyOffsetFrame(origin=origin, **({} if rotation is None else {'rotation': rotation}), **k)


class OffShim(object, metaclass=_OffMeta):
    pass
