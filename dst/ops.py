"""Operations: JSON descriptions of public calls, and their execution."""
import numpy as np
import pandas as pd

from dst import canon, data as D, models as M, rng


class Env:
    """Shared objects of a plan: frames and models that several operations may use."""

    def __init__(self, plan):
        self.data_specs = plan.get('data', {})
        self.model_specs = plan.get('models', {})
        self.frames = {}
        self.models = {}
        self.lists = {}

    def prepare(self):
        for k, s in self.data_specs.items():
            self.frames[k] = D.make(s)
        for k, s in self.model_specs.items():
            rng.seed(7)
            self.models[k] = M.build(s, self)
        return self

    def frame(self, d):
        return self.frames[d] if isinstance(d, str) else D.make(d)

    def model(self, k):
        return self.models[k] if k in self.models else M.build(self.model_specs[k], self)

    def mlist(self, specs, key=None):
        if specs is None:
            return None
        return [M.build(s, self) for s in specs]


def norm(df):
    from anticipy import forecast
    return forecast.normalize_df(df)


AXES = ('ceval', 'eval', 'aeval', 'init_params', 'init_cache', 'validate', 'simplify', 'build', 'compose', 'residuals', 'ols')
NDF = AXES + ('utils', 'fit', 'extrap', 'auto_season', 'is_mult', 'interp', 'freq', 'actuals_clean', 'outliers')


def prep(op, env):
    """Everything the caller owns and passes: built before the call (also by library functions)."""
    a = {}
    f = op['fn']
    if 'data' in op:
        a['df'] = form(env.frame(op['data']), op.get('form'))
        M.own('frame', a['df'])
    for k in ('trend', 'season', 'naive', 'calendar', 'yearly', 'weekly'):
        if k in op:
            a[k] = env.mlist(op[k])
    if 'model' in op:
        a['model'] = M.build(op['model'], env)
    if 'model2' in op:
        a['model2'] = M.build(op['model2'], env)
    if f in NDF:
        a['ndf'] = norm(a['df'])
    for k in ('trend', 'season', 'naive', 'calendar', 'yearly', 'weekly'):
        if k in a:
            M.own('list of models', a[k])
    if f in AXES:
        a['x'], a['y'] = a['ndf'].x.values, a['ndf'].y.values
        a['i'] = pd.DatetimeIndex(a['ndf'].date) if 'date' in a['ndf'] else None
    if f in ('ceval', 'eval', 'aeval', 'extrap', 'residuals'):
        a['params'] = params(op, a['model'])
    if f == 'ols' and op.get('weights'):
        a['w'] = 0.5 + np.arange(len(a['x'])) % 3
    if f == 'aeval':   # a table of actuals that is neither sorted nor free of duplicates
        t = a['ndf']
        rs = np.random.RandomState(op.get('pseed', 3) % (2 ** 32))
        if op.get('dup'):
            t = pd.concat([t, t.iloc[rs.choice(len(t), min(3, len(t)), replace=False)].assign(y=1e3)])
        if op.get('shuffle'):
            t = t.iloc[rs.permutation(len(t))]
        a['actuals'] = t.copy()
        if op.get('rindex'):
            a['actuals'].index = rs.permutation(len(t))
    if f in ('pi', 'plot'):
        a['fdf'] = forecast_table(op, a)
    if f == 'run_l':
        from anticipy import forecast as fc
        a['inputs'] = [fc.ForecastInput('s%d' % i, x, a.get('trend'), a.get('season'))
                       for i, x in enumerate([a['df'], a['df']])]
    for k, v in a.items():
        if k not in ('df', 'model', 'model2'):
            M.own('argument ' + k, v)
    return a


RENAME = dict(y='value', date='day', weight='wgt', source='series', x='idx')


FORMS = ('series', 'series', 'indexed', 'indexed', 'renamed', 'renamed', 'strdate', 'rindex', 'unnamed', 'object',
         'extra', 'slice')


def form(df, f):
    if f == 'unnamed' and 'date' in df:
        return df.set_index('date').y.rename(None)
    if f == 'object':
        return df.assign(y=df.y.astype(object))
    if f == 'extra':     # columns the library knows nothing about, named axes
        return df.assign(note='n', k=np.arange(len(df))).rename_axis('row').rename_axis('col', axis=1)
    if f == 'slice':     # a part of a larger table
        big = pd.concat([df, df], ignore_index=True)
        M.own('larger table', big)
        return big.iloc[:len(df)]
    if f == 'series' and 'date' in df:
        return df.set_index('date').y
    if f == 'indexed' and 'date' in df:
        return df.set_index('date')
    if f == 'renamed':
        return df.rename(columns=RENAME)
    if f == 'strdate' and 'date' in df:
        return df.assign(date=df.date.astype(str))
    if f == 'rindex':
        return df.set_index(np.arange(len(df))[::-1] + 5)
    return df


def call(op, env, a=None):
    """Execute one public call; returns its raw value (raises what the library raises)."""
    from anticipy import forecast as fc, forecast_models as fm, model_utils as mu
    a = prep(op, env) if a is None else a
    f = op['fn']
    kw = dict(op.get('kw', {}))
    if f == 'run_forecast':
        for k, n in (('trend', 'l_model_trend'), ('season', 'l_model_season'), ('naive', 'l_model_naive'),
                     ('calendar', 'l_model_calendar'), ('yearly', 'l_season_yearly'), ('weekly', 'l_season_weekly')):
            if k in a:
                kw[n] = a[k]
        if op.get('form') == 'renamed':
            kw.update({'col_name_' + k: v for k, v in RENAME.items()})
        if isinstance(kw.get('date_start_actuals'), str):
            kw['date_start_actuals'] = pd.Timestamp(kw['date_start_actuals'])
        return fc.run_forecast(a['df'], **kw)
    if f == 'run_l':
        return fc.run_l_forecast(a['inputs'], **kw)
    if f == 'fit':
        return fc.fit_model(a['model'], a['ndf'], df_actuals=a['ndf'] if op.get('actuals') else None, **kw)
    if f == 'extrap':
        df = a['ndf']
        if 'date' in df:
            lo, hi, q = df.date.min(), df.date.max(), mu.detect_freq(df)
        else:
            lo, hi, q = int(df.x.min()), int(df.x.max()), None
        return fc.extrapolate_model(a['model'], a['params'], lo, hi, q, op.get('years', 1),
                                    df_actuals=df if op.get('actuals') else None)
    if f == 'eval':
        return a['model'](a['x'], a['i'], a['params'], is_mult=op.get('mult', False))
    if f == 'aeval':
        return a['model'](a['x'], a['i'], a['params'], is_mult=op.get('mult', False), df_actuals=a['actuals'])
    if f == 'utils':
        return utils(op, a, fc, fm, mu)
    if f == 'cmp':     # comparing, hashing, sorting and printing models
        m, n = a['model'], a['model2']
        l = [m, n, fm.model_null, m + n, n * m]
        return (m == n, m != n, m < n, str(m), repr(n), len({x: 1 for x in l}), [x.name for x in sorted(l)],
                [sorted(x.l_cache_vars) for x in l], fc.is_null_model(m), mu.model_requires_scaling(m))
    if f == 'ceval':   # evaluation with (or without) the cached variables
        m = a['model']
        c = m.init_cache(a['x'], a['i']) if kw['use_cache'] else {}
        return [m(a['x'], a['i'], a['params'], is_mult=mu, **c) for mu in (False, True)]
    if f == 'init_params':
        m = a['model']
        return m.f_init_params(a['x'], a['y'], a['i'], op.get('mult', False)), m.f_bounds(a['x'], a['y'], a['i'])
    if f == 'init_cache':
        return a['model'].init_cache(a['x'], a['i'])
    if f == 'validate':
        return a['model'].validate_input(a['x'], a['y'], a['i'])
    if f == 'simplify':
        m = fm.simplify_model(a['model'], a['x'], a['y'], a['i'])
        return m, m(a['x'], a['i'], params(op, m))
    if f == 'build':   # building a model inside the call and evaluating it
        m = M.build(op['spec'], env)
        return m, str(m), m.n_params, m(a['x'], a['i'], params(op, m), is_mult=op.get('mult', False))
    if f == 'compose':
        m = a['model'] + a['model2'] if op.get('op', '+') == '+' else a['model'] * a['model2']
        return m, m(a['x'], a['i'], params(op, m))
    if f == 'pi':
        return fc.get_pi(a['fdf'], **kw)
    if f == 'normalize':
        if op.get('form') == 'renamed':
            kw.update({'col_name_' + k: v for k, v in RENAME.items()})
        return fc.normalize_df(a['df'], **kw)
    if f == 'auto_season':
        if 'yearly' in a:
            kw.update(l_season_yearly=a['yearly'], l_season_weekly=a['weekly'])
        return fm.get_l_model_auto_season(a['ndf'].date, **kw)
    if f == 'list_model':
        return fc.get_list_model(a.get('trend'), a.get('season'), **kw)
    if f == 'is_mult':
        return mu.is_multiplicative(a['ndf'])
    if f == 'interp':
        return mu.interpolate_df(a['ndf'], **kw)
    if f == 'freq':
        return mu.detect_freq(a['ndf'])
    if f == 'actuals_clean':
        return fc.get_df_actuals_clean(a['ndf'], 's', 'sl')
    if f == 'outliers':
        return fm.get_model_outliers(a['ndf'])
    if f == 'residuals':
        return fc.get_residuals(a['params'], a['model'], a['x'], a['y'], a['i'])
    if f == 'ols':
        return fc.optimize_least_squares(a['model'], a['x'], a['y'], a['i'], a_weights=a.get('w'), **kw)
    raise ValueError('op %r' % f)


def utils(op, a, fc, fm, mu):
    rs = np.random.RandomState(op.get('pseed', 3) % (2 ** 32))
    df = a['ndf']
    x, y = df.x.values, df.y.values
    aics = pd.Series(rs.standard_normal(4), index=list('abcd'))
    q = mu.detect_freq(df) if 'date' in df else None
    lo, hi = (df.date.min(), df.date.max()) if 'date' in df else (int(x.min()), int(x.max()))
    out = [mu.get_aic_c(float(rs.random_sample()), len(df), 3), mu.get_s_aic_c_best_result_key(aics),
           mu.get_s_x_extrapolate(lo, hi, None, q, op.get('years', 1), x_start_actuals=x.min()),
           mu.apply_a_x_scaling(x.astype(float)), mu.array_transpose(x),
           fm.get_iqr_thresholds(df.y.diff()), fm.create_fixed_step(float(rs.random_sample()), x[len(x) // 2]),
           fm.create_fixed_spike(2.5, x[len(x) // 2], 3), fm.create_fixed_spike_ignored(x[1], 2)]
    for m in out[-3:]:
        out.append(m(x, pd.DatetimeIndex(df.date) if 'date' in df else None, []))
    if 'date' in df:
        out.append(mu.get_normalized_x_from_date(df.date))
    return out


def params(op, m):
    rs = np.random.RandomState(op.get('pseed', 3) % (2 ** 32))
    return 0.5 + rs.random_sample(m.n_params) * 3


def forecast_table(op, a):
    """A forecast-like table built by the harness (not by the library) from the operation's frame."""
    df = a['df']
    df = df.loc[~df.y.isnull()]
    c = 'date' if 'date' in df else 'x'
    s = df[[c, 'y']].rename(columns={c: 'date'})
    rs = np.random.RandomState(op.get('pseed', 3) % (2 ** 32))
    act = s.assign(model='actuals', source='s', is_actuals=True)
    fit = s.assign(y=s.y + rs.standard_normal(len(s)), model='m', source='s', is_actuals=False)
    if c == 'date':
        step = s.date.iloc[-1] - s.date.iloc[-2] if len(s) > 1 else pd.Timedelta(1, 'D')
        fut = pd.DataFrame({'date': [s.date.iloc[-1] + step * (k + 1) for k in range(len(s) // 2)]})
    else:
        fut = pd.DataFrame({'date': np.arange(s.date.iloc[-1] + 1, s.date.iloc[-1] + 1 + len(s) // 2)})
    fut = fut.assign(y=np.arange(len(fut), dtype=float), model='m', source='s', is_actuals=False)
    return pd.concat([act, fit, fut], sort=False, ignore_index=True)


def outcome(op, env, a=None, catch=Exception):
    """Canonical outcome of one call: ('ok', value) or ('err', exception)."""
    rng.seed(op.get('seed', 1))
    try:
        return ('ok', canon.canon(call(op, env, a)))
    except catch as e:
        return ('err', canon.canon(e))


# ---------------------------------------------------------------------------------------- generation
def gen_op(r, plan, heavy=0.35, shared=0.6, cache=None):
    """One operation over the plan's shared frames/models (or private ones)."""
    dk = sorted(plan['data'])
    d = r.choice(dk)
    ds = plan['data'][d]
    if 'sources' in ds:
        ds = next(iter(ds['sources'].values()))
        if r.random() < 0.9:
            return gen_run(r, plan, d, ds, shared, cache)
    if r.random() < heavy:
        return gen_run(r, plan, d, ds, shared, cache)
    mk = sorted(plan['models'])

    def mod():
        if mk and r.random() < shared:
            return ['ref', r.choice(mk)]
        return M.gen_model(r, ds)
    f = r.choice(['fit', 'fit', 'fit', 'eval', 'eval', 'extrap', 'init_params', 'validate', 'simplify', 'build',
                  'compose', 'pi', 'normalize', 'auto_season', 'list_model', 'is_mult', 'interp', 'freq', 'residuals',
                  'ols', 'init_cache', 'actuals_clean', 'outliers', 'ceval', 'aeval', 'utils', 'cmp'])
    op = dict(fn=f, data=d, seed=r.randrange(1 << 30), pseed=r.randrange(1 << 30))
    if f in MODEL_OPS:
        op['model'] = mod()
    axis(r, op, ds)
    if f == 'ceval':
        op['kw'] = dict(use_cache=r.random() < 0.7 if cache is None else cache)
    if f in ('fit', 'ols'):
        op['kw'] = dict(use_cache=r.random() < 0.7 if cache is None else cache)
    if f == 'ols':
        op['weights'] = r.random() < 0.3
    if f in ('compose', 'cmp'):
        op['model2'] = mod()
    if f == 'compose':
        op['op'] = r.choice('+*')
    if f in ('eval', 'build', 'init_params'):
        op['mult'] = r.random() < 0.3
    if f == 'build':
        op['spec'] = M.gen_model(r, ds)
    if f == 'list_model':
        op['trend'] = [mod() for _ in range(r.choice([1, 2]))]
        op['season'] = [M.gen_season(r, ds) for _ in range(r.choice([0, 1, 2]))]
        op['kw'] = dict(season_add_mult=r.choice(['add', 'mult', 'both']))
    if f == 'normalize' and r.random() < 0.5:
        op['form'] = r.choice(FORMS)
    if f == 'auto_season':
        op['kw'] = dict(season_add_mult=r.choice(['add', 'mult']))
        if r.random() < 0.6:
            op['weekly'], op['yearly'] = r.choice(WEEKLY), r.choice(YEARLY)
    if f == 'pi':
        op['kw'] = dict(n_sims=r.choice([20, 50]), pi_q1=r.choice([5, 10]), widening_freq=r.choice(['Y', 'M', 'W']))
    return op


MODEL_OPS = ('fit', 'eval', 'ceval', 'aeval', 'extrap', 'init_params', 'validate', 'simplify', 'compose', 'residuals',
             'ols', 'init_cache', 'cmp')


def axis(r, op, ds):
    f = op['fn']
    if f == 'aeval':
        op.update(dup=r.random() < 0.6, shuffle=r.random() < 0.4, rindex=r.random() < 0.3)
        if r.random() < 0.7:
            op['model'] = ['std', r.choice(['naive', 'naive', 'snaive_wday'])]
    if f == 'extrap' and r.random() < 0.35:
        op['actuals'] = True
        op['model'] = ['std', r.choice(['naive', 'snaive_wday'])]
    if f in ('extrap', 'utils') and ds['freq'] in 'DH':
        op['years'] = r.choice([0.1, 0.5, 1]) if ds['freq'] == 'D' else 0.02


CHEAP = ['eval', 'ceval', 'init_cache', 'init_params', 'extrap', 'validate', 'simplify', 'compose', 'residuals', 'cmp',
         'build', 'utils', 'list_model', 'auto_season', 'aeval', 'freq', 'interp', 'normalize', 'is_mult', 'pi', 'outliers',
         'actuals_clean']


def cheap_fns(r):
    """Swarm: each run concentrates on a few kinds of call."""
    l = r.sample(CHEAP, r.choice([1, 2, 3]))
    if r.random() < 0.5:
        l += r.sample(['eval', 'ceval', 'init_cache', 'extrap'], 2)
    return l


def gen_cheap(r, plan, mk=None, fns=CHEAP):
    """An inexpensive call on one of the shared model objects (few library lines, so that every one of them is a likely
    place for a pre-emption): many different calls per run on near-duplicate data."""
    d = r.choice(sorted(x for x in plan['data'] if x != 'dm'))
    f = r.choice(fns)
    op = dict(fn=f, data=d, seed=r.randrange(1 << 30), pseed=r.choice([1, 2, 3]))
    mk = mk or sorted(plan['models'])
    if f in MODEL_OPS:
        op['model'] = ['ref', r.choice(mk)]
    axis(r, op, plan['data'][d])
    if f in ('extrap', 'utils'):
        op['years'] = dict(D=r.choice([0.1, 0.1, 0.5, 1]), H=0.01).get(plan['data'][d]['freq'], 1)
    if f == 'ceval':
        op['kw'] = dict(use_cache=r.random() < 0.7)
    if f in ('compose', 'cmp'):
        op['model2'] = ['ref', r.choice([x for x in mk if x != op['model'][1]] or mk if r.random() < 0.7 else mk)]
        op['op'] = r.choice('+*')
    if f in ('eval', 'init_params'):
        op['mult'] = r.random() < 0.3
    if f == 'build':
        op['spec'] = plan['models'][r.choice(mk)]
    if f == 'list_model':
        op['trend'], op['season'] = [['ref', r.choice(mk)]], [['ref', r.choice(mk)], ['std', 'null']]
        op['kw'] = dict(season_add_mult=r.choice(['add', 'mult', 'both']))
    if f == 'auto_season':
        op['kw'] = dict(season_add_mult=r.choice(['add', 'mult']))
        if r.random() < 0.8:
            op['weekly'] = r.choice(WEEKLY)
            op['yearly'] = r.choice(YEARLY)
    if f == 'normalize':
        op['form'] = r.choice(FORMS + (None,))
    if f == 'pi':
        op['kw'] = dict(n_sims=20, pi_q1=r.choice([5, 10]), widening_freq=r.choice(['Y', 'M', 'W', 'D']))
    return op


WEEKLY = [[['std', 'season_wday']], [['std', 'season_wday_2']], [['std', 'season_wday_2'], ['std', 'null']],
          [['std', 'season_wday'], ['std', 'null']], [['dfn', 'dm_a', 'monday']], []]
YEARLY = [[['std', 'season_month']], [['std', 'season_fourier_yearly']], [['std', 'season_month'], ['std', 'null']],
          [['std', 'season_fourier_yearly'], ['std', 'null']], [['dfn', 'dm_a', 'mstart']], []]


def other_lists(r, o):
    """Another list of candidates, mostly of the same length."""
    k, l = r.choice([('weekly', WEEKLY), ('yearly', YEARLY)])
    same = [x for x in l if len(x) == len(o[k]) and x != o[k]]
    o[k] = r.choice(same) if same and r.random() < 0.7 else r.choice(l)


def gen_run(r, plan, d, ds, shared=0.6, cache=None):
    mk = sorted(plan['models'])

    def mod(g):
        if mk and r.random() < shared:
            return ['ref', r.choice(mk)]
        return g(r, ds)
    op = dict(fn='run_forecast', data=d, seed=r.randrange(1 << 30))
    kw = dict(extrapolate_years=r.choice(dict(D=[0.1, 0.25, 0.1, 0.25, 0.5], H=[0.01, 0.02]).get(ds['freq'], [1])),
              simplify_output=r.random() < 0.4, include_all_fits=r.random() < 0.5)
    if ds['freq'] in ('MS', 'M', 'YS'):
        kw['extrapolate_years'] = r.choice([1, 2])
    if r.random() < 0.75:
        op['trend'] = [mod(M.gen_trend) for _ in range(r.choice([1, 1, 2]))]
        op['season'] = [mod(M.gen_season) for _ in range(r.choice([0, 1, 1, 2]))]
    elif r.random() < 0.3:     # naive models alone
        op['trend'], op['season'] = [], []
        op['naive'] = [['std', x] for x in r.sample(['snaive_wday', 'naive', 'null'], r.choice([2, 2, 3]))]
    if r.random() < 0.25:
        op['form'] = r.choice(FORMS)
    if r.random() < 0.15 and 'naive' not in op:
        op['naive'] = r.choice([[], [['std', 'naive']]])
    if r.random() < (0.15 if ds['n'] < 370 else 0.8) and ds['freq'] == 'D':
        op['calendar'] = [M.gen_dummy(r, ds)]
    if r.random() < 0.2:
        op['yearly'] = r.choice([[], [['std', 'season_month'], ['std', 'null']], [['std', 'season_fourier_yearly']]])
        op['weekly'] = r.choice([[], [['std', 'season_wday_2'], ['std', 'null']], [['std', 'season_wday']]])
    if r.random() < 0.1 and ds['freq'] != 'x':
        kw['date_start_actuals'] = str((pd.Timestamp(ds['start']) + pd.Timedelta(days=3)).date())
    if r.random() < 0.08:
        kw['find_outliers'] = True
    if r.random() < 0.06:
        kw['n_cum'] = r.choice([1, 3, 30])
    if 'sources' not in plan['data'][d] and r.random() < 0.2:
        kw['source_id'] = r.choice(['sA', 'sB'])
    kw['season_add_mult'] = r.choice(['add', 'add', 'mult', 'both', 'auto'])
    if r.random() < 0.3:
        kw['pi_q1'] = r.choice([1, 10])
        kw['pi_widening_freq'] = r.choice(['M', 'W', 'D'])
    if cache is not None:
        kw['use_cache'] = cache
    elif r.random() < 0.3:
        kw['use_cache'] = False
    if r.random() < 0.12:
        kw['verbose'] = True
    if r.random() < 0.1:
        kw['pi_q2'] = r.choice([25, 40])
    if r.random() < 0.06 and 'sources' not in plan['data'][d] and not op.get('form'):
        return dict(fn='run_l', data=d, seed=op['seed'], trend=op.get('trend') or [['std', 'linear']],
                    season=op.get('season') or [], kw=dict(
            extrapolate_years=kw['extrapolate_years'], include_all_fits=kw['include_all_fits'],
            season_add_mult=kw['season_add_mult']))
    op['kw'] = kw
    return op


def moments(ds, r):
    """A wall-clock time (s) that means something to the series: around its first or last sample, or in the forecast."""
    if ds['freq'] == 'x':
        return 1614600000
    d = pd.date_range(ds['start'], periods=ds['n'], freq=ds['freq'])
    t = r.choice([d[-1], d[-1], d[-1], d[0], d[len(d) // 2], d[-1] + pd.Timedelta(3, 'D'), d[-1] + pd.Timedelta(1, 'D')])
    return max(0, int(t.timestamp()) + r.choice([0, 43200, 86399]))


def gen_world(r, nd=2, nm=3, multi=0.15, near=0.6, freqs=None, special=0.1):
    """Shared frames and models. With probability `near` the second frame/model is a near-duplicate of the first: same
    length, start, name - one aspect different - which is what a wrongly keyed cache would confuse."""
    data = {}
    kw = dict(freqs=freqs) if freqs else {}
    base = D.gen_spec(r, **kw)
    data['d0'] = base
    for i in range(1, nd):
        if r.random() < near:
            s = dict(base)
            ch = r.choice(['seed', 'level', 'start', 'n', 'freq', 'seed', 'gaps', 'gaps', 'nan'])
            if special > 0.5 and r.random() < 0.6:   # other dates, nothing else
                ch = r.choice(['gaps', 'gaps', 'start'])
            if ch in ('gaps', 'nan'):   # same first and last sample, same number of samples
                base.setdefault(ch, sorted(r.sample(range(2, base['n'] - 2), 2)))
                s[ch] = sorted(r.sample(range(2, base['n'] - 2), len(base[ch])))
            elif ch == 'seed':
                s['seed'] = r.randrange(1 << 30)
            elif ch == 'level':
                s['level'] = base['level'] + r.choice([1, 100])
            elif ch == 'start':
                s['start'] = str((pd.Timestamp(base['start']) + pd.Timedelta(
                    days=r.choice([1, 2, 3, 100, 365, 400]))).date())
            elif ch == 'n':
                s['n'] = base['n'] + r.choice([1, 7])
            elif ch == 'freq' and base['freq'] in ('MS', 'M'):
                s['freq'] = 'MS' if base['freq'] == 'M' else 'M'
            elif ch == 'freq' and base['freq'] in ('D', 'W-MON', 'W-SUN'):
                s['freq'] = r.choice([x for x in ('D', 'W-MON', 'W-SUN') if x != base['freq']])
        else:
            s = D.gen_spec(r, **kw)
        data['d%d' % i] = s
    if r.random() < multi:
        data['dm'] = dict(sources={k: dict(D.gen_spec(r, freqs=(base['freq'],), simple=True), n=base['n'])
                                   for k in ('sa', 'sb')}, order=r.choice(['sorted', 'interleaved']))
        if r.random() < 0.3:     # a source that cannot be forecast, or hardly
            x = dict(data['dm']['sources']['sb'])
            x.update(r.choice([dict(keep=r.choice([2, 3, 5])), dict(allnull=True)]))
            data['dm']['sources'][r.choice(['s0', 'sb', 'sc'])] = x
    if nd > 1 and r.random() < 0.1:
        data['d1']['short'] = r.choice([1, 2, 3, 5])
    for k in sorted(data):     # samples taken at some other time of day
        if k != 'dm' and data[k]['freq'] in ('D', 'W-MON', 'W-SUN') and r.random() < 0.08:
            data[k]['hours'] = r.choice([6, 12.5, 23.75])
    models = {}
    for i in range(nm):
        if i and r.random() < near:
            models['m%d' % i] = near_model(r, models['m%d' % (i - 1)], base)
        else:
            models['m%d' % i] = M.gen_special(r, base) if r.random() < special else M.gen_model(r, base)
    return data, models


def near_model(r, spec, ds):
    """Same name, different meaning (or same meaning, different object)."""
    k = spec[0]
    if k == 'dlist':
        return ['dlist', spec[1], sorted(r.sample(range(0, 60), 6))]
    if k == 'ddates':
        return ['ddates', spec[1], M.gen_dates(r, ds)] if ds['freq'] != 'x' else ['dlist', spec[1], [1, 2, 3]]
    if k == 'dfn':
        return ['dfn', spec[1], r.choice(sorted(M.DFN))]
    if k == 'user':
        return ['user', spec[1], dict(spec[2], shape=r.choice(['line', 'wave', 'const', 'hyper']))]
    if k == 'cal':
        return ['cal', spec[1], [M._gen_cal(r) for _ in range(r.choice([1, 2]))]]
    if k == 'datelist' and ds['freq'] != 'x':
        return ['datelist', spec[1], [M.gen_dates(r, ds) for _ in spec[2]]]
    if k in ('spike', 'stepdate') and ds['freq'] != 'x':
        return M.gen_special(r, ds, k)
    if k in ('add', 'mul'):
        if r.random() < 0.3:
            return [k, near_model(r, spec[1], ds), spec[2]]
        return [k, spec[1], near_model(r, spec[2], ds)]
    if k == 'fix':
        return ['fix', spec[1], [None if x is None else x + 1 for x in spec[2]]]
    if k == 'fixall':
        return ['fixall', spec[1], [x + 1 for x in spec[2]]]
    return list(spec)
