"""C08 - point forecasts and model choice do not depend on luck."""
import copy

import numpy as np
import pandas as pd

from dst import canon, common, data as D, forkrun, models as M, ops, rng, sim

ID = 'C08'
RULE = ('a run counts as non-trivial if draws decided by the simulator reached the initial parameters of at least one '
        'fitted candidate and its fitted values were compared between two or more draw patterns')
SIZES = dict(quick=300, thorough=10000)
STUBS = ['random draws (adversarial)', 'entropy', 'clocks']
ASSUMPTIONS = ['tolerance: 5e-4 of the residual scale (plus 1e-6 of the values) over the past, growing with the '
               'distance from the data over the future; model choice is compared where the best two scores differ by '
               'more than 1e-3', 'seeded sampling: a clean batch is evidence, not proof']
KINDS = ('low', 'high', 'alt', 'tla', 'mid', 'rand', 'rand')


def gen(r, tier):
    plan = dict(prop=ID, models={})
    f = r.choice(['D', 'D', 'D', 'D', 'W-MON', 'MS', 'x'])
    n = dict(D=r.choice([42, 60, 90, 150, 400]), MS=r.choice([24, 48]), x=r.choice([30, 60])).get(f, 60)
    s = D.gen_spec(r, freqs=(f,), n=n)
    s['noise'] = r.choice([0.3, 1, 5])
    s['level'] = r.choice([0, 10, 100, 1000, -50, 1e4, 1e6])
    if r.random() < 0.15:
        s['scale'] = r.choice([1e-3, 1e4])
    plan['data'] = {'d0': s}

    act = D.build(s)          # every component must be covered by samples that count
    act = act.loc[act.y.notnull() & (act.weight > 0 if 'weight' in act else True)]
    if f == 'x':
        xs = [int(v) for v in act.x]
    else:
        xs = [int(v) for v in (act.date - act.date.iloc[0]).dt.days]

    def dummy():
        k = r.choice(['dlist', 'ddates', 'dfn', 'cal'])
        name = 'dm_' + r.choice('ab')
        if f == 'x' or k == 'dlist':
            return ['dlist', name, sorted(r.sample(xs[1:-1], 6))]
        if k == 'ddates':
            return ['ddates', name, [str(v.date()) for v in sorted(r.sample(list(act.date), 4))]]
        if k == 'dfn':
            return ['dfn', name, r.choice(['evenx', 'thirdx'] if f != 'D' else ['evenx', 'thirdx', 'mstart'])]
        d = r.sample([v for v in act.date if v.day <= 28], 4)
        return ['cal', name, [['rules', 'calr', [[v.month, v.day] for v in sorted(d)]]]]
    trends = r.sample([['std', 'constant'], ['std', 'linear']], r.choice([1, 2, 2]))
    seasons = []
    if f == 'D':
        seasons = r.choice([[], [['std', 'season_wday']], [['std', 'season_wday_2']],
                            [['std', 'season_wday'], ['std', 'null']], [['std', 'season_wday'],
                                                                        ['std', 'season_wday_2']]])
    if r.random() < 0.6:
        d = dummy()
        seasons = [['add', x, d] for x in seasons] + ([['std', 'null']] if r.random() < 0.5 else []) if seasons and \
            r.random() < 0.6 else seasons + [d]
    plan['op'] = dict(fn='run_forecast', data='d0', seed=r.randrange(1 << 30), trend=trends, season=seasons,
                      kw=dict(simplify_output=False, include_all_fits=True, season_add_mult='add',
                              use_cache=r.random() < 0.7,
                              extrapolate_years=dict(D=0.1, MS=1, x=20).get(f, 0.4)))
    if r.random() < 0.7:
        plan['op']['naive'] = []
    if r.random() < 0.25:      # fit_model is called directly, candidate by candidate
        plan['direct'] = True
        s.pop('nan', None)
    plan['kinds'] = [r.choice(KINDS) for _ in range(2)] + ['low', 'high', 'alt']
    return plan


def execute(plan):
    def child():
        common.setup_child('run')
        lines = set()
        s = sim.Sim(lines=lines)
        res = []

        def body():
            for i, k in enumerate(plan['kinds']):
                env = ops.Env(plan).prepare()
                sc = plan['data']['d0'].get('scale')
                if sc:
                    env.frames['d0']['y'] *= sc
                rng.stats['draws'] = 0
                rng.seed(plan['op']['seed'] + i)
                a = ops.prep(plan['op'], env)
                rng.mode[0] = rng.adversarial_uniform(k, np.random.RandomState((plan['op']['seed'] + i) % (2 ** 32)))
                try:
                    v = direct(plan, env, a) if plan.get('direct') else ops.call(plan['op'], env, a)
                    m, d = v['metadata'], v['data']
                    d = d.assign(is_actuals=d.is_actuals.astype(bool))
                    res.append((m[['model', 'is_fit', 'aic_c', 'is_best_fit', 'cost']].assign(
                        np=[len(x) for x in m.params]), d[['date', 'model', 'y', 'is_actuals']], rng.stats['draws']))
                except Exception as e:
                    res.append((canon.canon(e), None, 0))
                rng.mode[0] = None
        s.add('caller', body)
        s.run()
        if s.tasks[0].error is not None:
            raise s.tasks[0].error
        return dict(res=res, lines=[common.lid(c, l) for c, l in lines], steps=s.tasks[0].steps)
    return forkrun.fork(child)


def direct(plan, env, a):
    from anticipy import forecast as fc, model_utils as mu
    df = ops.norm(a['df'])
    x, i = df.x.values, (pd.DatetimeIndex(df.date) if 'date' in df else None)
    when = df.date.values if i is not None else x
    meta, data = [], [pd.DataFrame(dict(date=when, model='actuals', y=df.y.values, is_actuals=True))]
    for t in a['trend']:
        for m in [t] + [t + s for s in a['season']]:
            if m.name in [z.model.iloc[0] for z in meta]:
                continue
            d = fc.fit_model(m, df, mu.detect_freq(df.date) if i is not None else None, 's',
                             use_cache=plan['op']['kw']['use_cache'])['metadata'].assign(is_best_fit=False)
            meta.append(d)
            if bool(d.is_fit.iloc[0]):
                y = np.asarray(m(x, i, d.params.iloc[0]), dtype=float) + np.zeros(len(x))
                data.append(pd.DataFrame(dict(date=when, model=m.name, y=y, is_actuals=False)))
    return dict(metadata=pd.concat(meta, ignore_index=True), data=pd.concat(data, ignore_index=True))


def run(plan):
    o = dict(violations=[], stats={}, nontrivial=False, kinds={}, sig=repr((plan['kinds'], plan['op']['seed'])))
    e = execute(plan)
    o['lines'] = e['lines']
    common.stat(o, steps=e['steps'])
    base = e['res'][0]
    for i, (m, d, draws) in enumerate(e['res']):
        k = plan['kinds'][i]
        o['kinds']['fault:draws-' + k] = o['kinds'].get('fault:draws-' + k, 0) + 1
        common.stat(o, draws=draws)
        if (d is None) != (base[1] is None):
            x = m if d is None else base[0]
            return bad(o, plan, i, 'raised', 'the call raises %s only for some draws' % canon.short(x))
        if d is None:
            o['kinds']['error:' + m[1]] = o['kinds'].get('error:' + m[1], 0) + 1
            return o
        if i == 0:
            continue
        b = compare(plan, base, (m, d), o)
        if b:
            return bad(o, plan, i, *b)
        if draws:
            o['nontrivial'] = True
    return o


def bad(o, plan, i, cls, msg):
    o['violations'].append(dict(cls=cls, msg='%s (initial draws %s vs %s)' % (msg, plan['kinds'][0], plan['kinds'][i])))
    return o


def compare(plan, a, b, o):
    (ma, da, _), (mb, db) = a, b
    if sorted(ma.model) != sorted(mb.model):
        return 'candidates', 'candidates %s vs %s' % (sorted(ma.model), sorted(mb.model))
    act = da.loc[da.is_actuals & da.y.notnull()]
    worst_s = 0.0
    for n in sorted(set(ma.model)):
        xa, xb = ma.loc[ma.model == n].iloc[0], mb.loc[mb.model == n].iloc[0]
        if bool(xa.is_fit) != bool(xb.is_fit):
            return 'fitted', 'candidate %s is fitted for some draws only' % n
        if not xa.is_fit:
            continue
        ya = da.loc[~da.is_actuals & (da.model == n)].sort_values('date').reset_index(drop=True)
        yb = db.loc[~db.is_actuals & (db.model == n)].sort_values('date').reset_index(drop=True)
        if len(ya) != len(yb):
            return 'rows', 'candidate %s: %d vs %d rows' % (n, len(ya), len(yb))
        j = ya.merge(act[['date', 'y']].rename(columns=dict(y='a')), how='inner')
        rms = float(np.sqrt(np.mean((j.a - j.y) ** 2))) if len(j) else 1.0
        npast = max(2, len(j))
        far = np.maximum(0, np.arange(len(ya)) - npast) / float(npast)
        tol = (5e-4 * rms) * (1 + 4 * far) + 1e-6 * np.abs(ya.y.values)
        err = np.abs(ya.y.values - yb.y.values)
        common.stat(o, compared=len(ya))
        if len(err):
            worst = float((err / tol).max())
            if worst > 0.05:
                o['kinds']['err>5%tol'] = o['kinds'].get('err>5%tol', 0) + 1
            if worst > 0.3:
                o['kinds']['err>30%tol'] = o['kinds'].get('err>30%tol', 0) + 1
        if (err > tol).any():
            w = int(np.argmax(err / tol))
            return 'values', 'candidate %s on %s: %.9g vs %.9g (residual scale %.3g)' % (
                n, ya.date[w], ya.y[w], yb.y[w], rms)
        # a score follows the squared residuals: values within tolerance move it by this much
        stol = max(1, len(j)) * (1e-4 + (float(tol.max()) / rms) ** 2) if len(tol) and rms > 0 else 1e-3
        worst_s = max(worst_s, stol)
        if abs(xa.aic_c - xb.aic_c) > stol:
            return 'score', 'candidate %s: score %.9g vs %.9g' % (n, xa.aic_c, xb.aic_c)
    s = ma.loc[ma.is_fit.astype(bool)].aic_c.sort_values()
    if len(s) and (len(s) == 1 or s.iloc[1] - s.iloc[0] > max(2 * worst_s, 1e-3 * max(1, abs(s.iloc[0]) * 1e-3))):
        ca, cb = list(ma.loc[ma.is_best_fit.astype(bool)].model), list(mb.loc[mb.is_best_fit.astype(bool)].model)
        if ca != cb:
            return 'choice', 'selected %s vs %s' % (ca, cb)
    return None


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)

    def tryp(mut):
        nonlocal p
        q = copy.deepcopy(p)
        if mut(q) is False or not budget():
            return
        if fails(q):
            p = q
    for i in reversed(range(len(p['kinds']))):
        if len(p['kinds']) > 2:
            tryp(lambda q: q['kinds'].pop(i) and None)
    for key in ('trend', 'season'):
        for i in reversed(range(len(p['op'][key]))):
            if len(p['op']['trend']) + len(p['op']['season']) > 1:
                tryp(lambda q: q['op'][key].pop(i) and None)
    for k in ('nan', 'w0', 'weights', 'gaps'):
        if k in p['data']['d0']:
            tryp(lambda q: q['data']['d0'].pop(k) and None)
    return p
