"""Plot workloads: forecast tables built by the harness, what a plot of them has to show, scratch directories."""
import json
import os
import re

import numpy as np
import pandas as pd

UUID = re.compile(rb'[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}')
AUDIT = ('open', 'os.mkdir')


def gen_table(r, small=False):
    return dict(seed=r.randrange(1 << 30), n=r.choice([5, 12, 30] if small else [5, 12, 30, 60, 120]),
                fut=r.choice([3, 10]), src=r.choice([1, 1, 1, 2, 3, 5]), freq=r.choice(['D', 'W', 'MS']),
                pi=r.random() < 0.6, weight=r.random() < 0.2, nan=r.random() < 0.2, fits=r.random() < 0.7,
                shuffle=r.random() < 0.1)


def gen_kw(r, out):
    kw = dict(output=out, width=r.choice([200, 300, 420]), height=r.choice([150, 240, 300]),
              title=r.choice([None, 't', 'A title']), show_legend=r.random() < 0.7, include_interval=r.random() < 0.7)
    if out == 'png':
        kw['dpi'] = r.choice([40, 70])
        if kw['title'] is None and r.random() < 0.5:
            del kw['title']
    return kw


def table(t):
    rs = np.random.RandomState(t['seed'] % (2 ** 32))
    parts = []
    for k in range(t['src']):
        n = t['n'] + k
        d = pd.date_range('2019-01-01', periods=n + t['fut'], freq=t['freq'])
        y = np.round(100 * rs.random_sample(n) + 10 * k, 6)
        if t['nan']:
            y[rs.randint(1, n - 1)] = np.nan
        a = pd.DataFrame(dict(date=d[:n], y=y, model='actuals', is_actuals=True))
        p = [a]
        if t['weight']:
            p.append(a.assign(y=np.round(rs.random_sample(n), 6), model='weight'))
        f0 = 0 if t['fits'] else n
        f = pd.DataFrame(dict(date=d[f0:], y=np.round(80 * rs.random_sample(n + t['fut'] - f0), 6),
                              model='linear', is_actuals=False))
        if t['pi']:
            w = np.round(rs.random_sample(len(f)), 6)
            for q, s in (('q5', -3), ('q20', -1), ('q80', 1), ('q95', 3)):
                f[q] = f.y + s * (1 + w)
        p.append(f)
        parts.append(pd.concat(p, sort=False).assign(source='s%d' % k))
    df = pd.concat(parts, sort=False, ignore_index=True)
    if t['shuffle']:
        df = df.iloc[rs.permutation(len(df))].reset_index(drop=True)
    return df[['date', 'source', 'model', 'is_actuals', 'y'] +
              [c for c in ('q5', 'q20', 'q80', 'q95') if c in df]]


def norm(data):
    """File content with random element identities removed."""
    return UUID.sub(b'ID', data) if data is not None else None


# ------------------------------------------------------------------------------------------ what a plot shows
def _pt(x, y):
    return (str(pd.Timestamp(x)), None if y is None or y != y else round(float(y), 9))


def expected(df, kw):
    """[per panel: {kind: set of points}] from the table alone."""
    src = list(df.loc[df.is_actuals].source.unique()) if df.source.nunique() > 1 else [None]
    out = []
    for s in src:
        d = df if s is None else df.loc[df.source == s]
        if kw['output'] == 'png':
            d = d.loc[d.model != 'weight']
        a, f = d.loc[d.is_actuals], d.loc[~d.is_actuals]
        e = dict(act={_pt(x, y) for x, y in zip(a.date, a.y)}, fc={_pt(x, y) for x, y in zip(f.date, f.y)}, pi=set())
        if kw['include_interval']:
            for q in ('q5', 'q20', 'q80', 'q95'):
                if q in f:
                    e['pi'] |= {_pt(x, y) for x, y in zip(f.date, f[q])}
        out.append(e)
    return out


def shown_html(data):
    s = data.decode()
    m = re.search(r'Plotly\.newPlot\(\s*"[^"]*",\s*', s)
    if not m:
        return None
    traces, _ = json.JSONDecoder().raw_decode(s[m.end():])
    out = {}
    for t in traces:
        ax = out.setdefault(t.get('xaxis', 'x'), [])
        ax.append([_pt(x, y) for x, y in zip(t.get('x', ()), t.get('y', ()))])
    return list(out.values())


def shown_fig(fig):
    """Points of every visible panel of a matplotlib figure."""
    import matplotlib.dates as md
    out = []
    for ax in fig.axes:
        if not ax.get_visible():
            continue
        lines = []
        for ln in ax.get_lines():
            x, y = ln.get_xdata(orig=True), np.asarray(ln.get_ydata(orig=True), dtype=float)
            lines.append([_pt(a, b) for a, b in zip(x, y)])
        poly = set()
        for c in ax.collections:
            for p in c.get_paths():
                for a, b in p.vertices:
                    poly.add((str(pd.Timestamp(md.num2date(a).replace(tzinfo=None)).round('s')), round(float(b), 6)))
        out.append((lines, poly))
    return out


def mismatch_html(df, kw, data):
    got, want = shown_html(data), expected(df, kw)
    if got is None:
        return 'no plot in the file'
    if len(got) != len(want):
        return '%d panels instead of %d' % (len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        pts = {p for t in g for p in t}
        allw = w['act'] | w['fc'] | w['pi']
        if pts != allw:
            return 'panel %d: %d points missing, %d foreign points' % (i, len(allw - pts), len(pts - allw))
        for k in ('act', 'fc'):
            if not any(set(t) == w[k] for t in g):
                return 'panel %d: no trace with exactly the %s points' % (i, dict(act='actual', fc='forecast')[k])
    return None


def mismatch_fig(df, kw, got):
    want = expected(df, kw)
    if len(got) != len(want):
        return '%d panels instead of %d' % (len(got), len(want))
    for i, ((lines, poly), w) in enumerate(zip(got, want)):
        for k in ('act', 'fc'):
            if not any(set(t) == w[k] for t in lines):
                return 'panel %d: no line with exactly the %s points' % (i, dict(act='actual', fc='forecast')[k])
        pts = {p for t in lines for p in t}
        if pts - (w['act'] | w['fc']):
            return 'panel %d: %d foreign points' % (i, len(pts - (w['act'] | w['fc'])))
        pi = {(a, round(b, 6)) for a, b in w['pi'] if b is not None}
        days = {a for a, _ in pi}
        # the interval polygons start and end with a vertex at the first/last date, all others are table values
        if {p for p in poly if p not in pi and p[0] not in days}:
            return 'panel %d: interval area at foreign dates' % i
        if bool(pi) != bool(poly):
            return 'panel %d: interval area %s' % (i, 'missing' if pi else 'not asked for')
        if poly and len(pi - poly) > 0.5 * len(pi):
            return 'panel %d: interval area does not follow the table' % i
    return None


def watch_figures():
    """Record what every figure holds at the moment it is rendered to a file (real rendering is untouched)."""
    from matplotlib.backends import backend_agg
    seen = []
    real = backend_agg.FigureCanvasAgg.print_png

    def print_png(self, *a, **k):
        seen.append(shown_fig(self.figure))
        return real(self, *a, **k)
    backend_agg.FigureCanvasAgg.print_png = print_png
    return seen


# ------------------------------------------------------------------------------------------ scratch directories
def tree(d):
    """{relative path: content | None for directories | '-> target'}"""
    out = {}
    for base, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(base, x), d)] = None
        for x in fs:
            p = os.path.join(base, x)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


def fill(d, files):
    for p, c in sorted(files.items()):
        q = os.path.join(d, p)
        if c is None:
            os.makedirs(q, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'wb') as f:
            f.write(c.encode() if isinstance(c, str) else c)
