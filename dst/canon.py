"""Canonical, picklable form of everything the library returns, and comparison of two such forms."""
import re

import numpy as np
import pandas as pd

IGNORE_COLS = ('fit_time',)
_hex = re.compile(r'0x[0-9a-fA-F]+')


def canon(v, depth=0):
    if depth > 12:
        return ('deep',)
    d = depth + 1
    if v is None:
        return ('none',)
    if isinstance(v, (bool, np.bool_)):
        return ('b', bool(v))
    if isinstance(v, (int, np.integer)) and not isinstance(v, np.timedelta64):
        return ('i', int(v))
    if isinstance(v, (float, np.floating)):
        return ('f', np.array([float(v)]))
    if isinstance(v, str):
        return ('s', str(v))
    if isinstance(v, BaseException):
        return ('exc', type(v).__name__, _hex.sub('0x', str(v))[:400])
    if isinstance(v, pd.DataFrame):
        return ('df', tuple(str(c) for c in v.columns), canon(v.index, d),
                tuple(canon(v.iloc[:, i], d) for i in range(v.shape[1])))
    if isinstance(v, pd.Series):
        return ('ser', str(v.dtype), str(v.name), _arr(v.values, d), canon(v.index, d))
    if isinstance(v, pd.RangeIndex):
        return ('idx', 'int64', str(v.name), _arr(np.asarray(v), d))
    if isinstance(v, pd.Index):
        return ('idx', str(v.dtype), str(v.name), _arr(v.values, d))
    if isinstance(v, np.ndarray):
        return _arr(v, d)
    if isinstance(v, (pd.Timestamp, np.datetime64)):
        return ('ts', str(v))
    if isinstance(v, (pd.Timedelta, np.timedelta64)):
        return ('td', str(v))
    if isinstance(v, dict):
        return ('dict', tuple((str(k), canon(x, d)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return ('seq', tuple(canon(x, d) for x in v))
    if isinstance(v, (set, frozenset)):
        return ('set', tuple(sorted(repr(canon(x, d)) for x in v)))
    if hasattr(v, 'f_model') and hasattr(v, 'n_params'):
        return ('model', str(v.name), int(v.n_params))
    if callable(v):
        return ('fn', getattr(v, '__qualname__', repr(type(v))))
    return ('obj', type(v).__name__, _hex.sub('0x', str(v))[:200])


def _arr(a, d):
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    if a.dtype.kind in 'mM':
        return ('a', str(a.dtype), a.astype('int64'))
    if a.dtype.kind in 'biuf':
        return ('a', str(a.dtype), np.array(a))
    if a.dtype.kind == 'O' or a.dtype.kind in 'US':
        return ('ao', tuple(canon(x, d) for x in a.ravel().tolist()))
    try:
        arr = np.asarray(a)
        return ('ax', str(a.dtype), tuple(canon(x, d) for x in arr.ravel().tolist()))
    except Exception:
        return ('obj', str(type(a)))


def diff(a, b, rtol=0.0, atol=0.0, path='', ignore=IGNORE_COLS):
    """None if equal, else a short description of the first difference."""
    if type(a) is not type(b):
        return '%s: %s vs %s' % (path, short(a), short(b))
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return '%s: shape %s vs %s' % (path, a.shape, b.shape)
        if a.dtype.kind == 'f':
            if a.dtype != b.dtype:
                return '%s: dtype' % path
            ok = (a == b) | (np.isnan(a) & np.isnan(b))
            if not ok.all() and (rtol or atol):
                fin = np.isfinite(a) & np.isfinite(b)
                with np.errstate(all='ignore'):
                    ok = ok | (fin & (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))
            if not ok.all():
                i = int(np.argmin(ok.ravel()))
                return '%s[%d]: %r vs %r' % (path, i, a.ravel()[i], b.ravel()[i])
            return None
        if not np.array_equal(a, b):
            i = int(np.argmin((a == b).ravel())) if a.shape == b.shape and a.size else 0
            return '%s[%d]: %r vs %r' % (path, i, a.ravel()[i] if a.size else None, b.ravel()[i] if b.size else None)
        return None
    if isinstance(a, tuple):
        if a and isinstance(a[0], str) and a[0] == 'df' and b and b[0] == 'df':
            if a[1] != b[1]:
                return '%s: columns %s vs %s' % (path, a[1], b[1])
            r = diff(a[2], b[2], rtol, atol, path + '.index', ignore)
            if r:
                return r
            for c, x, y in zip(a[1], a[3], b[3]):
                if c in ignore:
                    continue
                r = diff(x, y, rtol, atol, '%s.%s' % (path, c), ignore)
                if r:
                    return r
            return None
        if a and isinstance(a[0], str) and a[0] == 'exc' and b and b[0] == 'exc' and rtol:
            if a[1] != b[1] or re.sub(r'[-\d.e+]+', '#', a[2]) != re.sub(r'[-\d.e+]+', '#', b[2]):
                return '%s: %s vs %s' % (path, short(a), short(b))
            return None
        if len(a) != len(b):
            return '%s: length %d vs %d (%s vs %s)' % (path, len(a), len(b), short(a), short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            p = path
            if a and a[0] == 'dict' and i == 1:
                for (k1, v1), (k2, v2) in zip(x, y):
                    if k1 != k2:
                        return '%s: key %s vs %s' % (path, k1, k2)
                    r = diff(v1, v2, rtol, atol, '%s.%s' % (path, k1), ignore)
                    if r:
                        return r
                if len(x) != len(y):
                    return '%s: number of keys' % path
                continue
            r = diff(x, y, rtol, atol, p if isinstance(x, (str, np.ndarray)) else '%s/%d' % (path, i), ignore)
            if r:
                return r
        return None
    if a != b:
        return '%s: %s vs %s' % (path, short(a), short(b))
    return None


def short(v):
    s = repr(v)
    return s if len(s) < 160 else s[:157] + '...'


TOL = dict(rtol=1e-6, atol=1e-9)


def differs(a, b, ignore=IGNORE_COLS):
    """Bitwise comparison; a mismatch within solver noise is tolerated. Returns (difference or None, bitwise)."""
    r = diff(a, b, ignore=ignore)
    if r is None:
        return None, True
    return diff(a, b, ignore=tuple(ignore) + ('params_str',), **TOL), False
