"""Ledger of caller-owned objects: fingerprints taken when an object is handed to the library, compared at any later
moment."""
import numpy as np
import pandas as pd


def fp(v, depth=0):
    if depth > 6:
        return id(v)
    d = depth + 1
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ('ao', v.shape, tuple(fp(x, d) for x in v.ravel().tolist()))
        return ('a', str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, pd.DataFrame):
        return ('df', tuple(str(c) for c in v.columns), str(v.columns.name), fp(v.index, d),
                tuple(fp(_col(v, i), d) for i in range(v.shape[1])), repr(v.attrs))
    if isinstance(v, pd.Series):
        return ('ser', str(v.name), fp(v.index, d), fp(_val(v), d), repr(v.attrs))
    if isinstance(v, pd.Index):
        return ('idx', str(v.name), str(getattr(v, 'freq', None)) if isinstance(v, pd.DatetimeIndex) else '',
                fp(np.asarray(v), d))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple((id(x), fp(x, d + 1)) if _obj(x) else fp(x, d) for x in v))
    if isinstance(v, dict):
        return ('dict', tuple((str(k), id(x), fp(x, d + 1)) for k, x in v.items()))
    if hasattr(v, 'f_model') and hasattr(v, 'n_params'):
        return ('model', tuple((k, fp(x, d)) for k, x in sorted(vars(v).items())))
    if hasattr(v, 'rules') and hasattr(v, 'holidays'):
        return ('calendar', v.name, tuple((id(x), fp(x, d)) for x in v.rules))
    if hasattr(v, 'observance') and hasattr(v, 'dates'):
        return ('holiday', repr(sorted((k, x) for k, x in vars(v).items() if isinstance(x, (int, str, type(None))))))
    if type(v).__name__ == 'ForecastInput':
        return ('input', tuple((k, id(x), fp(x, d)) for k, x in sorted(vars(v).items())))
    if isinstance(v, (int, float, str, bool, type(None), np.generic, pd.Timestamp)):
        return repr(v)
    return id(v)


def _obj(x):
    return not isinstance(x, (int, float, str, bool, type(None), np.generic, pd.Timestamp))


def _col(df, i):
    a = df._mgr.iget_values(i)
    return a if isinstance(a, np.ndarray) else np.asarray(a)


def _val(s):
    a = s._mgr.internal_values() if hasattr(s._mgr, 'internal_values') else s.values
    return a if isinstance(a, np.ndarray) else np.asarray(a)


def what(a, b, path=''):
    """Where two fingerprints differ, for the message."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                lab = str(x[0]) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(i)
                return what(x, y, path + '/' + lab)
    s = '%s: %r -> %r' % (path, a, b)
    return s if len(s) < 300 else s[:300] + '...'


class Ledger:
    def __init__(self):
        self.e = []
        self.ids = set()
        self.checks = 0

    def add(self, label, obj):
        if not _obj(obj) or id(obj) in self.ids:
            return
        self.ids.add(id(obj))
        self.e.append((label, obj, fp(obj)))

    def check(self):
        """None, or (label, description) of the first object that is not as it was handed over."""
        self.checks += len(self.e)
        for label, obj, f in self.e:
            g = fp(obj)
            if g != f:
                return label, what(f, g)
        return None
