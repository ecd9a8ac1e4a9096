"""Workload data: time series described by small JSON specs."""
import numpy as np
import pandas as pd

FREQS = ('D', 'W-MON', 'W-SUN', 'MS', 'M', 'YS', 'H', 'x')


def gen_spec(r, freqs=('D', 'D', 'D', 'D', 'W-MON', 'W-SUN', 'MS', 'M', 'YS', 'x', 'x', 'H'), n=None, simple=False):
    """r: random.Random."""
    f = r.choice(freqs)
    if n is None and f == 'D' and not simple and r.random() < 0.05:
        n = 400
    if n is None:
        n = dict(D=r.choice([20, 28, 35, 60, 90]), MS=r.choice([12, 18, 30]), M=r.choice([12, 18, 30]),
                 YS=r.choice([6, 9]), H=r.choice([30, 50]), x=r.choice([10, 20, 40])).get(f, r.choice([12, 20, 60]))
    s = dict(freq=f, n=n, start=r.choice(['2018-01-01', '2018-01-02', '2019-03-05', '2017-12-20', '2016-02-27']),
             seed=r.randrange(1 << 30), level=r.choice([0, 10, 100, 1000]), slope=r.choice([0, 0.1, 1, -0.5]),
             amp=r.choice([0, 1, 10]), noise=r.choice([0.3, 1, 5]))
    if f == 'D' and r.random() < 0.1:      # ends on a date with a meaning of its own
        e = pd.Timestamp(r.choice(['2016-02-29', '2020-02-29', '2020-02-28', '2019-12-31', '2020-12-31', '2018-03-31', '1970-01-01']))
        s['start'] = str((e - pd.Timedelta(n - 1, 'D')).date())
    if not simple:
        if r.random() < 0.3:
            s['nan'] = sorted(r.sample(range(1, n - 1), r.choice([1, 2])))
        if r.random() < 0.3:
            s['w0'] = sorted(r.sample(range(1, n - 1), r.choice([1, 2])))
        elif r.random() < 0.2:
            s['weights'] = True
        if r.random() < 0.25 and f in ('D', 'W-MON', 'W-SUN', 'x'):
            s['gaps'] = sorted(r.sample(range(2, n - 2), r.choice([1, 2])))
        if r.random() < 0.15:   # growing, with a season that grows along
            s.update(mult=True, level=r.choice([10, 100]), slope=r.choice([1, 5]), noise=r.choice([0.3, 1]))
            if f == 'D' and n < 90 and r.random() < 0.6:
                s['n'] = 90
    return s


def build(s):
    """One series: DataFrame with date (or x), y, optionally weight."""
    rs = np.random.RandomState(s['seed'] % (2 ** 32))
    n, f = s['n'], s['freq']
    t = np.arange(n, dtype=float)
    y = s['level'] + s['slope'] * t + s['amp'] * np.sin(2 * np.pi * t / 7) + s['noise'] * rs.standard_normal(n)
    if s.get('wk'):
        pass
    if s.get('mult'):
        y = np.abs(s['level'] + s['slope'] * t) * (1 + 0.3 * np.sin(2 * np.pi * t / 7)) + \
            s['noise'] * rs.standard_normal(n)
    if s.get('pos'):
        y = np.abs(y) + 1.0
    df = pd.DataFrame({'y': y})
    if f == 'x':
        df['x'] = np.arange(n) + s.get('x0', 0)
    else:
        df['date'] = pd.date_range(s['start'], periods=n, freq=f)
        if s.get('hours'):
            df['date'] += pd.Timedelta(hours=s['hours'])
    for i in s.get('spike', []):
        df.loc[i, 'y'] += 50 * (1 + s['noise'])
    for i in s.get('nan', []):
        if i < n:
            df.loc[i, 'y'] = np.nan
    if s.get('weights'):
        df['weight'] = 0.5 + rs.random_sample(n)
    if s.get('w0'):
        if 'weight' not in df:
            df['weight'] = 1.0
        for i in s['w0']:
            if i < n:
                df.loc[i, 'weight'] = 0.0
    if s.get('gaps'):
        df = df.drop([i for i in s['gaps'] if 0 < i < n - 1])
    cols = [c for c in ('date', 'x', 'y', 'weight') if c in df]
    df = df[cols].reset_index(drop=True)
    return df if s.get('short') is None else df.head(s['short'])


def build_multi(m):
    """m: {"sources": {name: spec}, "order": "sorted"|"interleaved"|"shuffled", "seed": int}"""
    parts = []
    for name, s in m['sources'].items():
        d = build(s)
        k = s.get('keep')
        if k is not None:
            d = d.head(k)
        if s.get('allnull'):
            d['y'] = np.nan
        d.insert(0, 'source', name)
        d['_k'] = np.arange(len(d))
        parts.append(d)
    df = pd.concat(parts, sort=False, ignore_index=True)
    if m.get('order') == 'interleaved':
        df = df.sort_values(['_k', 'source'], kind='mergesort')
    elif m.get('order') == 'shuffled':
        rs = np.random.RandomState(m.get('seed', 0) % (2 ** 32))
        # rows of one source keep their order; sources are shuffled into each other
        lab = df.source.values[rs.permutation(len(df))]
        pos = {x: list(df.index[df.source == x]) for x in m['sources']}
        df = df.loc[[pos[x].pop(0) for x in lab]]
    if 'weight' in df:
        df['weight'] = df.weight.fillna(1.0)
    return df.drop(columns='_k').reset_index(drop=True)


def make(spec):
    return build_multi(spec) if 'sources' in spec else build(spec)
