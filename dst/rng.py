"""Seams for randomness: np.random's global functions, os.urandom, and adversarial draw modes."""
import hashlib
import os
import random

import numpy as np

mode = [None]          # callable(name, real, args, kwargs) or None
reseeded = []          # calls that reseed/replace the global generator while `watch` is on
watch = [False]
_state = {'ent': 0, 'key': b'dst'}
_real = {}

DRAWS = ('uniform', 'rand', 'random', 'random_sample', 'randn', 'normal', 'standard_normal', 'choice', 'randint',
         'permutation', 'shuffle', 'exponential', 'poisson', 'beta', 'gamma')


def _urandom(n):
    _state['ent'] += 1
    out = b''
    k = 0
    while len(out) < n:
        out += hashlib.sha256(_state['key'] + b'%d:%d' % (_state['ent'], k)).digest()
        k += 1
    return out[:n]


def install():
    _real['urandom'] = os.urandom
    for n in DRAWS:
        f = getattr(np.random, n)
        _real[n] = f
        setattr(np.random, n, _wrap(n, f))
    for n in ('seed', 'set_state'):
        f = getattr(np.random, n)
        _real[n] = f
        setattr(np.random, n, _wrap_seed(n, f))
    rs = random.seed
    _real['random.seed'] = rs

    def seed(*a, **k):
        if watch[0]:
            reseeded.append('random.seed%r' % (a,))
        return rs(*a, **k)
    random.seed = seed


def _wrap(n, f):
    def w(*a, **k):
        m = mode[0]
        return f(*a, **k) if m is None else m(n, f, a, k)
    w.__name__, w.__qualname__, w.__doc__ = n, n, f.__doc__
    return w


def _wrap_seed(n, f):
    def w(*a, **k):
        if watch[0]:
            reseeded.append('np.random.%s' % n)
        return f(*a, **k)
    w.__name__ = n
    return w


def entropy(key):
    """Deterministic process entropy from here on."""
    _state['ent'], _state['key'] = 0, str(key).encode()
    os.urandom = _urandom
    random._urandom = _urandom


def seed(s):
    _real['seed'](s % (2 ** 32))
    _real['random.seed'](s)


def save():
    return (np.random.get_state(), random.getstate(), _state['ent'])


def restore(st):
    _real['set_state'](st[0])
    random.setstate(st[1])
    _state['ent'] = st[2]


def same(a, b):
    return a[0][0] == b[0][0] and bool((a[0][1] == b[0][1]).all()) and a[0][2:] == b[0][2:]


# ---- draw modes
def stateless(key):
    """Every draw depends only on (key, function, arguments): the same request gives the same numbers, whatever was
    drawn before. Used where two executions with different numbers of draws are compared."""
    def m(name, real, a, k):
        st = np.random.get_state()
        h = hashlib.sha256(repr((key, name, _desc(a), sorted((x, _desc(y)) for x, y in k.items()))).encode())
        _real['seed'](int.from_bytes(h.digest()[:4], 'big'))
        try:
            return real(*a, **k)
        finally:
            _real['set_state'](st)
    return m


def _desc(v):
    if isinstance(v, np.ndarray):
        return ('arr', v.shape)
    if isinstance(v, (tuple, list)):
        return [_desc(x) for x in v]
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return 'f'
    return repr(type(v))


stats = {'draws': 0}


def adversarial_choice(pick):
    """`pick(n, size) -> index array` decides every bootstrap draw; other draws stay pseudo-random."""
    def m(name, real, a, k):
        if name == 'choice':
            args = dict(zip(('a', 'size', 'replace', 'p'), a))
            args.update(k)
            pop, size = args['a'], args.get('size')
            n = int(pop) if np.isscalar(pop) else len(pop)
            tot = int(np.prod(size)) if size is not None else 1
            stats['draws'] += tot
            if args.get('replace', True) is False:
                return real(*a, **k)
            idx = np.asarray(pick(n, tot), dtype=int) % max(n, 1)
            if size is None:
                return idx[0] if np.isscalar(pop) else pop[idx[0]]
            idx = idx.reshape(size)
            return idx if np.isscalar(pop) else np.asarray(pop)[idx]
        if name == 'randint':
            args = dict(zip(('low', 'high', 'size', 'dtype'), a))
            args.update(k)
            low, high, size = args['low'], args.get('high'), args.get('size')
            if high is None:
                low, high = 0, low
            tot = int(np.prod(size)) if size is not None else 1
            stats['draws'] += tot
            idx = low + np.asarray(pick(int(high - low), tot), dtype=int) % max(int(high - low), 1)
            return int(idx[0]) if size is None else idx.reshape(size)
        return real(*a, **k)
    return m


def adversarial_uniform(kind, rs):
    """Initial-parameter draws: lowest / highest possible, alternating, random."""
    def frac(tot):
        if kind == 'low':
            return np.zeros(tot)
        if kind == 'high':
            return np.full(tot, 1 - 2.0 ** -53)
        if kind == 'mid':
            return np.full(tot, 0.5)
        if kind == 'alt':
            return (np.arange(tot) % 2) * (1 - 2.0 ** -53)
        if kind == 'tla':
            return ((np.arange(tot) + 1) % 2) * (1 - 2.0 ** -53)
        return rs.random_sample(tot)

    def m(name, real, a, k):
        if name == 'uniform':
            args = dict(zip(('low', 'high', 'size'), a))
            args.update(k)
            low, high, size = args.get('low', 0.0), args.get('high', 1.0), args.get('size')
            tot = int(np.prod(size)) if size is not None else 1
            stats['draws'] += tot
            v = low + (high - low) * frac(tot)
            return float(v[0]) if size is None else v.reshape(size)
        if name in ('rand', 'random', 'random_sample'):
            size = a if name == 'rand' else (a[0] if a else k.get('size'))
            tot = int(np.prod(size)) if size not in (None, ()) else 1
            stats['draws'] += tot
            v = frac(tot)
            return float(v[0]) if size in (None, ()) else v.reshape(size)
        return real(*a, **k)
    return m
