"""Workload models: nested JSON specs turned into ForecastModel objects through the library's public API, and the
user-supplied functions (model, init, bounds, validation, dummy) the simulator controls."""
import numpy as np
import pandas as pd

STD = ['constant', 'linear', 'linear_nondec', 'ramp', 'season_wday', 'season_wday_2', 'season_month',
       'season_fourier_yearly', 'dummy_christmas', 'dummy_month_start', 'calendar_uk', 'calendar_us', 'calendar_ita',
       'naive', 'snaive_wday', 'null', 'quasilinear', 'exp', 'decay', 'step', 'two_steps', 'sigmoid_step', 'sigmoid']

STD_X = ['constant', 'linear', 'linear_nondec', 'ramp', 'null', 'quasilinear', 'exp', 'decay', 'step', 'two_steps',
         'sigmoid_step', 'sigmoid']

STD_DATE = ['season_wday', 'season_month', 'season_fourier_yearly', 'season_fourier_yearly', 'calendar_uk', 'calendar_ita',
            'dummy_month_start', 'season_wday_2', 'season_month']

decline = {}  # user model name -> how its validation answers, instead of its own answer
hooks = {}   # name -> callable(kind, name, payload): called by user functions (faults, delays, counting)


def hook(kind, name, **kw):
    h = hooks.get(kind)
    if h is not None:
        h(name, **kw)


# Dummy functions (module level: identical code objects, no addresses in names)
def d_weekend(a_x, a_date, **kw):
    hook('dummy', 'weekend')
    return (a_date.weekday >= 5).astype(float)


def d_monday(a_x, a_date, **kw):
    hook('dummy', 'monday')
    return (a_date.weekday == 0).astype(float)


def d_mstart(a_x, a_date, **kw):
    hook('dummy', 'mstart')
    return (a_date.day <= 3).astype(float)


def d_evenx(a_x, a_date, **kw):
    hook('dummy', 'evenx')
    return (np.asarray(a_x) % 2 == 0).astype(float)


def d_thirdx(a_x, a_date, **kw):
    hook('dummy', 'thirdx')
    return (np.asarray(a_x) % 3 == 0).astype(float)


DFN = dict(weekend=d_weekend, monday=d_monday, mstart=d_mstart, evenx=d_evenx, thirdx=d_thirdx)


def _calendar(spec):
    from pandas.tseries.holiday import AbstractHolidayCalendar, Holiday
    from anticipy import forecast_models as fm
    k = spec[0]
    if k == 'uk':
        return fm.CalendarBankHolUK()
    if k == 'xmas':
        return fm.CalendarChristmasUK()
    if k == 'ita':
        return fm.CalendarBankHolIta()
    if k == 'rules':  # a calendar built from rules, with an explicit or the default name
        rules = [Holiday('r%d' % i, month=m, day=d) for i, (m, d) in enumerate(spec[2])]
        return AbstractHolidayCalendar(name=spec[1], rules=rules) if spec[1] else AbstractHolidayCalendar(rules=rules)
    if k == 'mut':    # one calendar object whose rules the caller sets
        return AbstractHolidayCalendar(name=spec[1], rules=[Holiday('r', month=spec[2], day=spec[3])])
    raise ValueError(spec)


ledger = [None]      # dst.own.Ledger: records every object handed to the library


def own(label, obj):
    if ledger[0] is not None:
        ledger[0].add(label, obj)
    return obj


def build(spec, env=None):
    return own('model %s' % (spec[1] if len(spec) > 1 and isinstance(spec[1], str) else spec[0]), _build(spec, env))


def _build(spec, env=None):
    from anticipy import forecast_models as fm
    k = spec[0]
    if k == 'ref':
        return env.model(spec[1])
    if k == 'std':
        return getattr(fm, 'model_' + spec[1])
    if k == 'add':
        return build(spec[1], env) + build(spec[2], env)
    if k == 'mul':
        return build(spec[1], env) * build(spec[2], env)
    if k == 'dlist':
        return fm.get_model_dummy(spec[1], own('list', list(spec[2])))
    if k == 'ddates':
        return fm.get_model_dummy(spec[1], own('dates', [pd.Timestamp(x) for x in spec[2]]))
    if k == 'dfn':
        return fm.get_model_dummy(spec[1], DFN[spec[2]])
    if k == 'dhol':
        from pandas.tseries.holiday import Holiday
        return fm.get_model_dummy(spec[1], own('holiday', Holiday('h', month=spec[2], day=spec[3])))
    if k == 'cal':
        cals = own('calendars', [own('calendar', _calendar(c)) for c in spec[2]])
        return fm.get_model_from_calendars(cals if len(cals) > 1 or spec[-1] == 'list' else cals[0], spec[1])
    if k == 'datelist':
        return fm.get_model_from_datelist(spec[1], *[own('datelist', list(x)) for x in spec[2]])
    if k == 'fix':
        m = build(spec[1], env)
        p = [np.nan if x is None else x for x in (list(spec[2]) * m.n_params)[:m.n_params]]
        return fm.fix_params_fmodel(m, own('params', np.array(p) if spec[-1] == 'array' else p))
    if k == 'fixall':
        m = build(spec[1], env)
        return fm.get_fixed_model(m, own('params', [float(x) for x in (list(spec[2]) * max(m.n_params, 1))[:m.n_params]]))
    if k == 'spike':
        return fm.get_model_spike_date(pd.Timestamp(spec[1]), pd.Timestamp(spec[2]))
    if k == 'stepdate':
        return fm.get_model_step_date(pd.Timestamp(spec[1]))
    if k == 'vars':   # a caller-made model with its own cache variables, validators and functions
        from anticipy.forecast_models import ForecastModel
        dk = own('cache functions', {'mask_' + spec[1]: DFN[spec[2]]})
        lv = own('validators', [lambda a_x, a_y, a_date: True])
        lc = own('cache variables', list(spec[3]))

        def f_model(a_x, a_date, params, is_mult=False, **kwargs):
            m = kwargs.get('mask_' + spec[1])
            hook('model', spec[1], size=len(a_x), count=0)
            return params[0] * (DFN[spec[2]](a_x, a_date) if m is None else m) + float(is_mult)
        return ForecastModel(spec[1], 1, f_model, l_f_validate_input=lv, l_cache_vars=lc, dict_f_cache=dk)
    if k == 'user':
        return user(spec[1], **spec[2])
    raise ValueError('model spec %r' % (spec,))


# ---------------------------------------------------------------------------------------- user-supplied models
class Counter:
    def __init__(self):
        self.n = {}

    def hit(self, name):
        self.n[name] = self.n.get(name, 0) + 1
        return self.n[name]


counter = Counter()


def user(name, shape='line', n_params=None, valid=None, eqbounds=False, **kw):
    """A model supplied by the caller. shape: line, wave, const, drift (never converges), chaos; valid: None | 'true'
    | 'false' | 'npfalse' | 'assert' | 'nothing'."""
    from anticipy.forecast_models import ForecastModel
    st = {}
    n = n_params or dict(line=2, wave=2, const=1, drift=1, chaos=2, hyper=2).get(shape, 2)

    def f_model(a_x, a_date, params, is_mult=False, **kwargs):
        c = counter.hit(name)
        hook('model', name, size=len(a_x), count=c)
        p = np.asarray(params, dtype=float)
        x = np.asarray(a_x, dtype=float)
        if shape == 'line':
            return p[0] * x + p[1]
        if shape == 'wave':
            return p[0] * np.sin(x / 5.0) + p[1]
        if shape == 'const':
            return np.full(len(x), p[0])
        if shape == 'hyper':
            return p[0] / (1.0 + x) + p[1]
        if shape == 'drift':
            # a residual that shrinks at a steady pace for ever, half as fast as its derivative promises: every step
            # of a trust-region solver is accepted, none leads to convergence
            if 'base' not in st:
                st.update(base=p.copy(), level=kw.get('level', 1e6))
            u = float(np.sum(p - st['base']))
            if np.max(np.abs(p - st['base'])) > 1e-5 * (1.0 + np.max(np.abs(st['base']))):
                st.update(base=p.copy(), level=st['level'] - 0.5 * kw.get('slope', 10.) * u)
                u = 0.0
            r = st['level'] - kw.get('slope', 10.) * u
            if kw.get('tempting') and len(st.get('y', ())) == len(x):   # a cost far below that of any other candidate
                return st['y'] - r
            return np.full(len(x), -r)
        if shape == 'chaos':
            return p.sum() * x / n + 1e3 * np.sin(c * 12.9898) / (1 + 1e-3 * c)
        raise ValueError(shape)

    def f_init(a_x=None, a_y=None, a_date=None, is_mult=False):
        hook('init', name)
        if kw.get('tempting') and a_y is not None:
            st['y'] = np.array(a_y, dtype=float)
        return np.random.uniform(0.1, 1, n)

    def f_bounds(a_x=None, a_y=None, a_date=None):
        hook('bounds', name)
        if eqbounds:  # fixes the first parameter through equal bounds
            return np.array([0.5] + (n - 1) * [-np.inf]), np.array([0.5] + (n - 1) * [np.inf])
        return n * [-np.inf], n * [np.inf]

    def f_init_eq(a_x=None, a_y=None, a_date=None, is_mult=False):
        hook('init', name)
        return np.concatenate([[0.5], np.random.uniform(0.1, 1, n - 1)])

    def f_valid(a_x, a_y, a_date):
        hook('valid', name)
        v = decline.get(name, valid)
        if v == 'false':
            return False
        if v == 'npfalse':
            return np.bool_(False)
        if v == 'assert':
            assert False, 'declined by %s' % name
        if v == 'nothing':
            return None
        return True

    return ForecastModel(name, n, f_model, f_init_eq if eqbounds else f_init, f_bounds,
                         l_f_validate_input=f_valid if valid else None)


# ---------------------------------------------------------------------------------------- generation
def gen_dates(r, spec, k=3):
    """k dates of a data spec (as strings)."""
    d = pd.date_range(spec['start'], periods=spec['n'], freq=spec['freq'])
    return [str(x.date()) for x in sorted(r.sample(list(d), min(k, len(d))))]


def gen_dummy(r, data, name=None):
    name = name or 'dm_%s' % r.choice('abcd')
    k = r.choice(['dlist', 'ddates', 'dfn', 'dhol', 'cal', 'datelist'])
    if data['freq'] == 'x':
        k = 'dlist'
    if k == 'dlist':
        return ['dlist', name, sorted(r.sample(range(0, 60), 6))]
    if k == 'ddates':
        return ['ddates', name, gen_dates(r, data)]
    if k == 'dfn':
        return ['dfn', name, r.choice(sorted(DFN))]
    if k == 'dhol':
        d = pd.date_range(data['start'], periods=data['n'], freq=data['freq'])[r.randrange(data['n'])]
        return ['dhol', name, d.month, min(d.day, 28)]
    if k == 'cal':
        return ['cal', name, [_gen_cal(r) for _ in range(r.choice([1, 2]))]]
    return ['datelist', name, [gen_dates(r, data) for _ in range(r.choice([1, 2]))]]


def _gen_cal(r):
    k = r.choice(['uk', 'xmas', 'ita', 'rules'])
    if k == 'rules':
        return ['rules', r.choice([None, 'calr']), [[r.randint(1, 12), r.randint(1, 28)]
                                                     for _ in range(r.choice([1, 3]))]]
    return [k]


def gen_trend(r, data, light=True):
    k = r.random()
    if k < 0.45:
        return ['std', r.choice(['linear', 'constant', 'linear', 'linear_nondec'])]
    if k < 0.55 and data['n'] >= 12:
        return ['add', ['std', 'linear'], ['std', 'ramp']]
    if k < 0.65:
        return ['fix', ['std', 'linear'], [None, r.choice([0.5, 3.0, 10.0])]]
    if k < 0.72:
        return ['fixall', ['std', 'linear'], [r.choice([0.0, 0.5]), r.choice([3.0, 10.0])]]
    if k < 0.85:
        return ['user', r.choice(['ua', 'ub']), dict(shape=r.choice(['line', 'wave', 'const', 'hyper']),
                                                     eqbounds=r.random() < 0.3)]
    if k < 0.88 and data['freq'] != 'x':
        return ['vars', 'va_%s' % r.choice('ab'), r.choice(['weekend', 'monday', 'evenx']),
                r.choice([[], ['a_weekday'], ['a_month', 'a_weekday']])]
    if k < 0.92:
        return ['std', r.choice(['ramp', 'step', 'sigmoid'])] if data['n'] >= 12 else ['std', 'constant']
    return ['std', 'constant']


def gen_season(r, data):
    if data['freq'] == 'D':
        return r.choice([['std', 'season_wday'], ['std', 'season_wday_2'], ['std', 'season_wday'],
                         gen_dummy(r, data), ['std', 'null']])
    if data['freq'] in ('MS', 'M') and data['n'] >= 18:
        return r.choice([['std', 'season_month'], ['std', 'null'], gen_dummy(r, data)])
    return r.choice([['std', 'null'], gen_dummy(r, data)])


def gen_special(r, data, k=None):
    """A model of any kind the library offers, also those that are not default candidates."""
    k = k or r.choice(['std', 'std', 'std', 'std', 'dummy', 'dummy', 'cal', 'cal', 'cal', 'hol', 'spike', 'stepdate', 'fixall', 'fix', 'vars'])
    if data['freq'] == 'x':
        return r.choice([['std', r.choice(STD_X)], gen_dummy(r, data)])
    if k == 'std':
        m = ['std', r.choice(STD_DATE if r.random() < 0.65 else STD)]
        if r.random() < 0.3:
            m = [r.choice(['add', 'mul']), ['std', r.choice(['linear', 'constant'])], m]
        return m
    if k == 'cal':
        cs = []
        for _ in range(r.choice([1, 1, 2])):
            d = gen_dates(r, data)
            cs.append(r.choice([['uk'], ['ita'], ['xmas'], ['xmas']] + [['rules', r.choice([None, 'calr']), [
                [int(x[5:7]), min(int(x[8:]), 28)] for x in d]]] * 4))
        return ['cal', r.choice(['dm_a', 'dm_b']), cs]
    if k == 'hol':
        d = gen_dates(r, data, 1)[0]
        return ['dhol', r.choice(['dm_a', 'dm_b']), int(d[5:7]), min(int(d[8:]), 28)]
    if k == 'spike':
        d = gen_dates(r, data, 2)
        return ['spike', d[0], d[1]]
    if k == 'stepdate':
        return ['stepdate', gen_dates(r, data, 1)[0]]
    if k == 'fixall':
        return ['fixall', ['std', r.choice(['season_wday', 'season_month', 'linear', 'ramp', 'exp'])],
                [r.choice([0.0, 0.5, 1.0]), r.choice([3.0, 10.0])]]
    if k == 'fix':
        return ['fix', ['std', r.choice(['season_wday', 'season_month', 'linear'])], [None, r.choice([0.5, 3.0])]]
    if k == 'vars':
        return ['vars', 'va_%s' % r.choice('ab'), r.choice(['weekend', 'monday', 'evenx']),
                r.choice([[], ['a_weekday'], ['a_month', 'a_weekday'], ['a_t_fourier']])]
    return gen_dummy(r, data)


def gen_model(r, data, depth=0):
    k = r.random()
    if k < 0.35 or depth > 1:
        return gen_trend(r, data)
    if k < 0.5:
        return gen_season(r, data)
    if k < 0.6:
        return gen_dummy(r, data)
    a, b = gen_trend(r, data), gen_season(r, data)
    if r.random() < 0.3:
        b = gen_dummy(r, data)
    return [r.choice(['add', 'add', 'mul']), a, b]


def mentions(spec, kind):
    """Does a model description contain a component of this kind?"""
    return isinstance(spec, list) and bool(spec) and (spec[0] == kind or any(mentions(x, kind) for x in spec))
