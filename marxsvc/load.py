"""Import the package under verification from /repo and swap the numerical
environment of its modules (numpy, math, astropy.table) for the symbolic one.
The function bodies that run are the ones in /repo, byte for byte."""
import contextlib
import importlib
import math
import os
import sys
import types
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get('MARXSVC_REPO', '/repo')
warnings.filterwarnings('ignore')

import numpy as np                                   # noqa: E402


def import_marxs(mods=()):
    if REPO not in sys.path or sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    os.environ.setdefault('MPLBACKEND', 'agg')
    import logging
    logging.disable(logging.WARNING)
    import marxs
    if not os.path.abspath(marxs.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError('marxs imported from %s, not from %s' % (marxs.__file__, REPO))
    logging.disable(logging.NOTSET)
    out = []
    for m in mods:
        out.append(importlib.import_module(m))
    return out


class MathShim(object):
    def __getattr__(self, n):
        from . import npshim
        real = getattr(math, n)
        if not callable(real):
            return real
        alias = {'sqrt': 'sqrt', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'atan2': 'arctan2', 'acos': 'arccos',
                 'asin': 'arcsin', 'atan': 'arctan', 'exp': 'exp', 'log': 'log', 'floor': 'floor', 'ceil': 'ceil',
                 'fabs': 'absolute', 'hypot': 'hypot'}

        def f(*a):
            if npshim.has_sym(a) and n in alias:
                # functions of the math module convert arrays with one element to a number
                a = [x.reshape(()) if getattr(x, 'ndim', 0) and all(k == 1 for k in x.axes) else x for x in a]
                return npshim.apply_uf(alias[n], a)
            return real(*a)
        return f


_shim = {}


def shims():
    if not _shim:
        from . import npshim, table
        import astropy.table
        import copy
        _shim['np'] = npshim.NpShim()
        _shim['math'] = MathShim()
        _shim['table'] = table
        from . import symq

        class TableModule(object):
            """Stand-in for the module astropy.table"""
            Table, QTable, Column = table.TableShim, table.QTableShim, table.ColumnShim
            vstack = staticmethod(table.vstack)

            def __getattr__(self, n):
                return getattr(astropy.table, n)
        _shim['tablemod'] = TableModule()
        _shim['units'] = symq.UnitsShim()
        _shim['linalg'] = _shim['np'].linalg
        _shim['random'] = _shim['np'].random
    return _shim


def _targets():
    for n, m in list(sys.modules.items()):
        if m is None or not isinstance(m, types.ModuleType):
            continue
        if n == 'marxs' or n.startswith('marxs.'):
            yield n, m, True
        elif n.startswith('transforms3d.'):
            yield n, m, False


@contextlib.contextmanager
def installed():
    """patch globals for the duration of a symbolic run"""
    from . import npshim, table
    import astropy.coordinates
    import astropy.table
    import astropy.units
    from . import symsky, symq
    S = shims()
    saved = []

    def setg(m, k, v):
        d = m.__dict__
        saved.append((d, k, d.get(k, _MISSING)))
        d[k] = v
    try:
        for n, m, ours in _targets():
            d = m.__dict__
            for k, v in list(d.items()):
                if v is np:
                    setg(m, k, S['np'])
                elif v is math:
                    setg(m, k, S['math'])
                elif v is np.linalg:
                    setg(m, k, S['np'].linalg)
                elif v is np.random:
                    setg(m, k, S['np'].random)
                elif ours and v is astropy.table.Table:
                    setg(m, k, table.TableShim)
                elif ours and v is astropy.table.QTable:
                    setg(m, k, table.QTableShim)
                elif ours and v is astropy.table:
                    setg(m, k, S['tablemod'])
                elif ours and v is astropy.units:
                    setg(m, k, S['units'])
                elif ours and v is astropy.units.Quantity:
                    setg(m, k, symq.QuantityShim)
                elif ours and v is astropy.coordinates.SkyCoord:
                    setg(m, k, symsky.SkyShim)
                elif ours and v is astropy.coordinates.SkyOffsetFrame:
                    setg(m, k, symsky.OffShim)
                elif ours and v is astropy.table.Column:
                    setg(m, k, table.ColumnShim)
                elif callable(v) and not isinstance(v, type) and getattr(v, '__module__', None) is None \
                        and getattr(v, '__self__', None).__class__.__name__ == 'RandomState':
                    setg(m, k, getattr(S['np'].random, v.__name__))
                elif isinstance(v, np.ufunc):
                    setg(m, k, getattr(S['np'], v.__name__))
                elif k in ('norm',) and v is np.linalg.norm:
                    setg(m, k, S['np'].linalg.norm)
            for k, v in npshim.SHIM_BUILTINS.items():
                if k not in d:
                    setg(m, k, v)
        yield S['np']
    finally:
        for d, k, v in reversed(saved):
            if v is _MISSING:
                d.pop(k, None)
            else:
                d[k] = v


class _Missing(object):
    pass


_MISSING = _Missing()
