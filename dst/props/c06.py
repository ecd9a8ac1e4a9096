"""C06 - prediction intervals are sound for every sequence of random draws."""
import copy
import random

import numpy as np
import pandas as pd

from dst import canon, common, data as D, forkrun, models as M, ops, rng, sim

ID = 'C06'
RULE = ('a run counts as non-trivial if interval bounds were produced under draws decided by the simulator (the seam '
        'was used) and compared with the reference model')
SIZES = dict(quick=300, thorough=14000)
STUBS = ['random draws (bootstrap: adversarial; others: a fixed function of the request)', 'entropy', 'clocks']
DAYS = dict(Y=365, M=30, W=7, D=1)
FDAYS = {'D': 1, 'W-MON': 7, 'W-SUN': 7, 'MS': 30, 'M': 30, 'YS': 365, 'x': 1}


def gen(r, tier):
    plan = dict(prop=ID, models={})
    f = r.choice(['D', 'D', 'W-MON', 'W-SUN', 'MS', 'M', 'YS', 'x'])
    nsrc = r.choice([1, 1, 1, 2, 3])
    src = {n: D.gen_spec(r, freqs=(f,)) for n in r.sample(['a', 'b', 's1', 's10'], nsrc)}
    for s in src.values():
        if r.random() < 0.25:
            s['nan'] = list(range(s['n'] - r.choice([1, 2, 3]), s['n']))       # the last samples are null
        if r.random() < 0.2:
            s['w0'] = sorted(set(s.get('w0', [])) | set(range(s['n'] - r.choice([1, 2]), s['n'])))
        if r.random() < 0.1:
            s['spike'] = [s['n'] // 2]
        if r.random() < 0.1:
            s['noise'] = 0.0
    plan['data'] = {'dm': dict(sources=src, order=r.choice(['sorted', 'interleaved']))} if nsrc > 1 else \
        {'dm': next(iter(src.values()))}
    kw = dict(pi_q1=r.choice([1, 5, 10, 25, 49]), pi_q2=r.choice([20, 25, 30, 40]))
    if r.random() < 0.15:
        kw['pi_q1'], kw['pi_q2'] = r.randint(1, 99), r.randint(1, 99)
    w = r.choice('YMWD')
    plan['freq'], plan['widening'], plan['rseed'] = f, w, r.randrange(1 << 30)
    plan['pseed'] = r.randrange(1 << 30)
    if r.random() < 0.45:
        plan['op'] = dict(fn='pi', kw=dict(kw, n_sims=r.choice([1, 2, 20, 100])))
        if f in ('D', 'x') and r.random() < 0.15:
            plan['op']['kw']['n_cum'] = plan['n_cum'] = r.choice([1, 3, 30])
        else:
            plan['op']['kw']['widening_freq'] = w
        plan['future'] = r.choice([1, 2, 10, 40, 400] if f == 'D' else [1, 2, 10, 40])
        plan['rindex'] = r.random() < 0.3
        plan['best'] = r.choice([None, 'plain', 'others'])
    else:
        ds = next(iter(src.values()))
        kw.update(pi_widening_freq=w, simplify_output=False, include_all_fits=r.random() < 0.5,
                  season_add_mult=r.choice(['add', 'mult', 'both']),
                  extrapolate_years=r.choice([1, 2]) if f in ('MS', 'M') else r.choice([0, 1, 2, 3])
                  if f == 'YS' else 20 if f == 'x' and r.random() < 0.3 else r.choice([0, 0.1, 0.25, 1, 2.5]))
        plan['op'] = dict(fn='run_forecast', kw=kw)
        if r.random() < 0.7:
            plan['op']['trend'] = [r.choice([['std', 'linear'], ['std', 'constant'], M.gen_trend(r, ds)])]
            plan['op']['season'] = r.choice([[], [], [M.gen_season(r, ds)]])
        if r.random() < 0.3:
            plan['op']['naive'] = []
    plan['picks'] = [gen_pick(r) for _ in range(6)]
    return plan


def gen_pick(r):
    k = r.choice(['const', 'const', 'const', 'alt', 'blocks', 'ramp', 'random', 'sparse'])
    return [k, r.randrange(1 << 20), r.randrange(1 << 20)]


def picker(p):
    kind, i, j = p
    cnt = [0]

    def pick(n, size):
        cnt[0] += 1
        if kind == 'const':
            return np.full(size, i % n)
        if kind == 'alt':
            return np.where(np.arange(size) % 2 == cnt[0] % 2, i % n, j % n)
        if kind == 'blocks':
            return np.full(size, (i, j)[cnt[0] % 2] % n)
        if kind == 'ramp':
            return (np.arange(size) + i) % n
        rs = np.random.RandomState((i + cnt[0]) % (2 ** 32))
        if kind == 'sparse':
            return np.where(rs.random_sample(size) < 0.05, j % n, i % n)
        return rs.randint(0, n, size)
    return pick


def mode(p, seed):
    base = rng.stateless(seed)
    if p is None:
        return base
    adv = rng.adversarial_choice(picker(p))

    def m(name, real, a, k):
        if name in ('choice', 'randint'):
            return adv(name, lambda *x, **y: base(name, real, x, y), a, k)
        return base(name, real, a, k)
    return m


def table(plan):
    """A forecast table built by the harness, for get_pi."""
    rs = np.random.RandomState(plan['pseed'] % (2 ** 32))
    df = D.make(plan['data']['dm'])
    f = plan['freq']
    c = 'date' if 'date' in df else 'x'
    if 'source' not in df:
        df['source'] = 'src'
    parts = []
    for n, d in df.groupby('source', sort=False):
        d = d.rename(columns={c: 'date'})
        act = d[[x for x in ('date', 'source', 'y', 'weight') if x in d]].assign(model='actuals', is_actuals=True)
        end = act.date.max()
        if c == 'x':
            fut = np.arange(end + 1, end + 1 + plan['future'])
            allx = np.concatenate([act.date.values, fut])
        else:
            allx = pd.DatetimeIndex(list(act.date) + list(pd.date_range(end, periods=plan['future'] + 1, freq=f)[1:]))
        for m in ('m1', 'm2') if plan['best'] == 'others' else ('m1',):
            y = 50 + 0.5 * np.arange(len(allx)) + rs.standard_normal(len(allx)) * plan['data'].get('fn', 3.0)
            parts.append(pd.DataFrame(dict(date=allx, source=n, y=y, model=m, is_actuals=False)))
            if 'weight' in act:
                parts[-1]['weight'] = 1.0
        parts.append(act)
    t = pd.concat(parts, sort=False, ignore_index=True)
    t = t.sort_values(['source', 'is_actuals', 'model', 'date'], ascending=[True, False, True, True], kind='mergesort')
    t = t.reset_index(drop=True)
    if plan['best']:
        t['is_best_fit'] = t.model == 'm1'
    if plan['rindex']:
        t.index = np.arange(len(t))[::-1] + 3
    return t


def execute(plan):
    """All draw patterns of a plan in one pristine child: [(data table, forecast table) or error, draws]."""
    op = dict(plan['op'], data='dm', seed=plan['rseed'])

    def child():
        from anticipy import forecast as fc
        common.setup_child('run')
        env = ops.Env(plan).prepare()
        lines = set()
        s = sim.Sim(lines=lines)
        res = []

        def body():
            for p in [None] + plan['picks']:
                rng.stats['draws'] = 0
                rng.mode[0] = mode(p, plan['rseed'])
                rng.seed(plan['rseed'])
                try:
                    if op['fn'] == 'pi':
                        t = table(plan)
                        v = fc.get_pi(t, **op['kw'])
                    else:
                        v = ops.call(op, env, ops.prep(op, env))
                        t, v = v['data'], v['forecast']
                    res.append((t, v, rng.stats['draws']))
                except Exception as e:
                    res.append((canon.canon(e), None, 0))
                rng.mode[0] = None
        s.add('caller', body)
        s.run()
        if s.tasks[0].error is not None:
            raise s.tasks[0].error
        keep = ('date', 'source', 'y', 'weight', 'model', 'is_actuals', 'is_best_fit')
        out = [(t if v is None else t[[c for c in t if c in keep]], v, n) for t, v, n in res]
        return dict(res=out, lines=[common.lid(c, l) for c, l in lines], steps=s.tasks[0].steps)
    return forkrun.fork(child)


def reference(t):
    """{source: (residuals centred, last actual, rows kept)} from a table of actuals and forecasts."""
    t = t.assign(is_actuals=t.is_actuals.astype(bool))
    if 'is_best_fit' in t:
        t = t.loc[t.is_actuals | t.is_best_fit.astype(bool)]
    out = {}
    for n, d in t.groupby('source'):
        act = d.loc[d.is_actuals & ~d.y.isnull()]
        used = act
        if 'weight' in d and (d.weight == 0).any():
            used = act.loc[act.weight > 0]
        fit = d.loc[~d.is_actuals & ~d.y.isnull()]
        m = used[['date', 'y']].rename(columns=dict(y='a')).merge(fit[['date', 'y']], how='inner')
        res = (m.a - m.y).dropna()
        last = used.date.max() if len(used) else None
        out[n] = ((res - res.mean()).values, last, act, fit)
    return out


def widening(plan):
    if 'n_cum' in plan:
        return plan['n_cum']
    return max(1, int(DAYS[plan['widening']] / FDAYS[plan['freq']]))


def check(plan, t, v, p, draws, o):
    ref = reference(t)
    kw = plan['op']['kw']
    qs = sorted({kw['pi_q1'], 100 - kw['pi_q1'], kw['pi_q2'], 100 - kw['pi_q2']})
    cols = ['q%d' % q for q in qs]
    v = v.assign(is_actuals=v.is_actuals.astype(bool))
    n = 0
    for s, (res, last, act, fit) in ref.items():
        d = v.loc[v.source == s] if 'source' in v else v
        da = d.loc[d.is_actuals].sort_values('date', kind='mergesort')
        df = d.loc[~d.is_actuals].sort_values('date', kind='mergesort')
        if list(da.y) != list(act.sort_values('date', kind='mergesort').y):
            return 'actuals', 'actual values of source %s are not those of the input' % s
        if len(da) and any(c in d and da[c].notnull().any() for c in cols):
            return 'actuals-bounds', 'rows for actuals of source %s carry interval bounds' % s
        if not len(res):
            continue
        fs = fit.sort_values('date', kind='mergesort')
        if len(df) != len(fs) or list(df.date) != list(fs.date) or not (df.y.values == fs.y.values).all():
            return 'rows', 'forecast rows or values of source %s changed by the interval computation' % s
        if any(c not in d for c in cols):
            return 'columns', 'no bounds %s for source %s' % (cols, s)
        b = df[cols].values.astype(float) - df.y.values[:, None]
        sc = 1e-9 * (np.abs(df.y.values).max() + np.abs(res).max() + 1e-3)
        if not np.isfinite(df[cols].values.astype(float)).all():
            return 'finite', 'bounds of source %s are not finite' % s
        if (np.diff(b, axis=1) < -sc).any():
            return 'nesting', 'bounds %s of source %s are not nested' % (cols, s)
        past = (df.date <= last).values
        i = np.cumsum(~past) - 1
        k = np.where(past, 0, i // widening(plan) + 1)
        lo, hi = res.min() * (1 + k), res.max() * (1 + k)
        if (b < lo[:, None] - sc * (1 + k)[:, None]).any() or (b > hi[:, None] + sc * (1 + k)[:, None]).any():
            j = int(np.nonzero((b < lo[:, None] - sc * (1 + k)[:, None]).any(1) | (
                b > hi[:, None] + sc * (1 + k)[:, None]).any(1))[0][0])
            return 'extreme', ('source %s, %s (%s, %d widening period(s) begun): departure %s outside [%g, %g]' % (
                s, df.date.iloc[j], 'past' if past[j] else 'future', k[j], np.round(b[j], 6), lo[j], hi[j]))
        if p is not None and p[0] == 'const' and draws:
            # the draws used: every one the same residual
            d0 = b[past][0, 0] if past.any() else None
            if d0 is not None:
                if np.abs(res - d0).min() > sc:
                    return 'const-base', 'every draw picks the same residual but the past departure %g of source %s is ' \
                        'not a centred residual' % (d0, s)
                e = np.abs(b - (d0 * (1 + k))[:, None]).max(1)
                if (e > sc * (1 + k)).any():
                    j = int(np.nonzero(e > sc * (1 + k))[0][0])
                    return 'const', ('every draw picks residual %g of source %s, but on %s (%d widening period(s) '
                                     'begun) the departure is %s' % (d0, s, df.date.iloc[j], k[j], np.round(b[j], 6)))
        n += 1
        common.stat(o, bounds=int(b.size), future=int((~past).sum()))
    common.stat(o, tables=1)
    if n and draws:
        o['nontrivial'] = True
    return None


def run(plan):
    o = dict(violations=[], stats={}, nontrivial=False, kinds={}, sig=repr(plan['picks']))
    e = execute(plan)
    o['lines'] = e['lines']
    common.stat(o, steps=e['steps'])
    o['kinds']['op:' + plan['op']['fn']] = 1
    base = e['res'][0]
    for p, (t, v, draws) in zip([None] + plan['picks'], e['res']):
        if v is None:
            if base[1] is not None:
                o['violations'].append(dict(cls='raised', msg='draws %s make the call raise %s' % (p, canon.short(t))))
                break
            o['kinds']['error:' + t[1]] = o['kinds'].get('error:' + t[1], 0) + 1
            continue
        k = 'fault:draws-' + (p[0] if p else 'hashed')
        o['kinds'][k] = o['kinds'].get(k, 0) + 1
        common.stat(o, draws=draws)
        bad = check(plan, t, v, p, draws, o)
        if not bad and base[1] is not None and p is not None:
            x = base[1][[c for c in base[1] if not c.startswith('q')]]
            y = v[[c for c in v if not c.startswith('q')]]
            d, _ = canon.differs(canon.canon(x), canon.canon(y))
            if d:
                bad = 'drawn', 'the drawn values change the output other than the bounds: %s' % d
        if bad:
            o['violations'].append(dict(cls=bad[0], msg=bad[1] + ' (draws %s)' % (p,)))
            plan['picks'] = [p] if p else []
            break
    return o


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)

    def tryp(mut):
        nonlocal p
        q = copy.deepcopy(p)
        if mut(q) is False or not budget():
            return
        if fails(q):
            p = q
    if 'sources' in p['data']['dm']:
        for i in list(p['data']['dm']['sources']):
            if len(p['data']['dm']['sources']) > 1:
                tryp(lambda q: q['data']['dm']['sources'].pop(i) and None)
    for k in ('nan', 'w0', 'weights', 'gaps', 'spike'):
        if k in p['data']['dm']:
            tryp(lambda q: q['data']['dm'].pop(k) and None)
    return p
