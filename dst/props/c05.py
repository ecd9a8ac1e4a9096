"""C05 - each source is forecast as if it were the only one."""
import copy
import random

import numpy as np
import pandas as pd

from dst import canon, common, data as D, forkrun, models as M, ops, rng, seams, sim

ID = 'C05'
RULE = ('a run counts as non-trivial if rows of at least two sources were compared, or one source was compared while '
        'another one was mutilated or had failing fits')
SIZES = dict(quick=130, thorough=5000)
STUBS = ['solver linear algebra (injected failures)', 'random draws (a fixed function of the request)', 'entropy',
         'clocks']
NS = [20, 28, 36, 45, 54, 63]
TABLES = ('forecast', 'data', 'metadata', 'optimize_info')


def gen(r, tier):
    plan = dict(prop=ID, models={})
    f = r.choice(['D', 'D', 'D', 'W-MON', 'MS', 'x'])
    k = r.choice([2, 2, 3, 3, 4])
    ns = r.sample(NS, k)
    names = r.sample(['sa', 'sb', 'Sc', 's1', 's10', 's2', 'a b', 'actuals', 'zz'], k)
    src = {}
    for i, n in zip(names, ns):
        q = f if f == 'x' or r.random() < 0.8 else r.choice(['D', 'W-MON', 'MS'])
        s = D.gen_spec(r, freqs=(q,), n=n)
        if q == 'x' and r.random() < 0.3:
            s['x0'] = 7
        src[i] = s
    for i in names[1:] if r.random() < 0.8 else []:
        if r.random() < 0.6:
            z = r.choice(['keep', 'keep', 'allnull', 'w0', 'neg'])
            if z == 'keep':
                src[i]['keep'] = r.choice([1, 1, 2, 3, 4, 7])
                for c in ('nan', 'w0', 'gaps'):
                    src[i].pop(c, None)
            elif z == 'allnull':
                src[i]['allnull'] = True
            elif z == 'neg':
                src[i]['level'] = -1000
            else:
                src[i]['w0'] = list(range(src[i]['n'] - r.choice([1, 2, 10])))
    plan['data'] = {'dm': dict(sources=src, order=r.choice(['sorted', 'interleaved', 'shuffled']),
                               seed=r.randrange(1 << 30))}
    ds = dict(src[names[0]])
    if len({s['freq'] for s in src.values()}) > 1 and ds['freq'] != 'D':
        ds['freq'] = 'W-MON'
    if r.random() < 0.2 and f != 'x':
        plan['pi'] = dict(pi_q1=r.choice([1, 5, 10]), pi_q2=r.choice([20, 30]), widening_freq=r.choice('YMWD'),
                          n_sims=r.choice([20, 100]))
        plan['pseed'] = r.randrange(1 << 30)
        return plan
    op = ops.gen_run(r, dict(plan, data={'dm': plan['data']['dm']}), 'dm', ds)
    for z in ('find_outliers', 'date_start_actuals'):
        op['kw'].pop(z, None)
    if r.random() < 0.8:
        op['kw']['simplify_output'] = False
    op.pop('form', None)
    if any(x['freq'] in ('MS', 'M') for x in src.values()):   # a fraction of a year is rejected for monthly samples
        op['kw']['extrapolate_years'] = 1
    plan['op'] = op
    plan['fault_seed'] = r.randrange(1 << 30)
    plan['fault'] = None
    plan['drop_col'] = r.random() < 0.3
    return plan


def sizes(plan):
    """{number of usable samples: source}, for sources that can be told apart by it."""
    df = D.make(plan['data']['dm'])
    ok = ~df.y.isnull()
    if 'weight' in df:
        ok &= df.weight > 0
    c = df.loc[ok].groupby('source').size()
    return {int(n): i for i, n in c.items() if (c == n).sum() == 1}


def execute(plan, only=None, fault=None):
    """The call with all sources, or (only=name) with the rows of that source alone. fault: [source, candidate or None,
    step] - every fit of that source (that candidate's) fails from that linear-algebra step on."""
    op = plan['op']
    sz = sizes(plan)

    def child():
        common.setup_child('run')
        seams.name_models()
        env = ops.Env(plan).prepare()
        fired, runs = {}, {}
        cur = [None]

        def start(size):
            cur[0] = sz.get(size)

        def svd(name, fit, step):
            runs.setdefault(cur[0], {})[name] = max(step, runs.get(cur[0], {}).get(name, 0))
            if fault and cur[0] == fault[0] and fault[1] in (None, name) and step >= fault[2]:
                fired[name] = fired.get(name, 0) + 1
                raise np.linalg.LinAlgError('SVD did not converge')
        seams.solver(svd)
        seams.on_start[0] = start
        a = ops.prep(op, env)
        o2 = copy.deepcopy(op)
        if only is not None:
            a['df'] = a['df'].loc[a['df'].source == only].reset_index(drop=True)
            if plan.get('drop_col'):
                a['df'] = a['df'].drop(columns='source')
                o2['kw']['source_id'] = only
        rng.mode[0] = rng.stateless(op['seed'])
        rng.seed(op['seed'])
        lines = set()
        s = sim.Sim(lines=lines)

        def body():
            try:
                return ('ok', ops.call(o2, env, a))
            except Exception as e:
                return ('err', canon.canon(e))
        s.add('caller', body)
        s.run()
        if s.tasks[0].error is not None:
            raise s.tasks[0].error
        k, v = s.tasks[0].result
        out = dict(fired=fired, runs=runs, steps=s.tasks[0].steps, lines=[common.lid(c, l) for c, l in lines])
        if k == 'err' or v is None:
            out['err'] = v if k == 'err' else ('none',)
        else:
            if isinstance(v, pd.DataFrame):
                v = dict(forecast=v)
            out['t'] = {x: plain_table(v[x]) for x in v if x in TABLES}
        return out
    return forkrun.fork(child)


def plain_table(df):
    df = df.copy()
    for c in df:
        if df[c].dtype == object:
            df[c] = [str(x) if hasattr(x, 'f_model') else x for x in df[c]]
    return df


def execute_pi(plan, only=None):
    def child():
        from anticipy import forecast as fc
        common.setup_child('run')
        parts = []
        for i, s in plan['data']['dm']['sources'].items():
            if only in (None, i):
                d = D.make(s)
                if len(d) < 3:
                    continue
                t = ops.forecast_table(dict(pseed=plan['pseed']), dict(df=d))
                parts.append(t.assign(source=i))
        df = pd.concat(parts, sort=False, ignore_index=True)
        rng.mode[0] = rng.stateless(plan['pseed'])
        rng.seed(1)
        try:
            return dict(t=dict(forecast=fc.get_pi(df, **plan['pi'])))
        except Exception as e:
            return dict(err=canon.canon(e))
    return forkrun.fork(child)


def rows(df, src):
    d = df.loc[df.source == src]
    keys = [c for c in ('model', 'is_actuals', 'date') if c in d]
    if 'is_actuals' in d:
        d = d.assign(is_actuals=d.is_actuals.astype(bool))
    d = d.sort_values(keys, kind='mergesort').reset_index(drop=True)
    return d


def diff_rows(a, b, o):
    """Rows of one source by column name; columns missing on one side are null there; dtypes may widen."""
    if len(a) != len(b):
        return '%d rows vs %d rows alone' % (len(b), len(a))
    for c in sorted(set(a) | set(b), key=str):
        if c == 'fit_time':
            continue
        x = a[c] if c in a else pd.Series([None] * len(a))
        y = b[c] if c in b else pd.Series([None] * len(b))
        nx, ny = x.isnull().values, y.isnull().values
        if (nx != ny).any():
            return 'column %s: null in row(s) %s only' % (c, list(np.nonzero(nx != ny)[0][:3]))
        x, y = list(x[~nx]), list(y[~ny])
        d, bit = canon.differs(canon.canon([plain(v) for v in x]), canon.canon([plain(v) for v in y]))
        common.stat(o, compared=1, bitwise=int(bit))
        if d:
            return 'column %s: %s' % (c, d)
    return None


def plain(v):
    if isinstance(v, (bool, np.bool_)):
        return float(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        return float(v)
    return v


def run(plan):
    o = dict(violations=[], stats={}, nontrivial=False, kinds={}, sig='')
    src = plan['data']['dm']['sources']
    if 'pi' in plan:
        good = [i for i, s in src.items() if min(s['n'], s.get('keep', 99)) >= 3]
        all_, solo = execute_pi(plan), {i: execute_pi(plan, i) for i in good}
        o['kinds']['get_pi'] = 1
        judge(plan, all_, solo, None, o)
        return o
    for s in src.values():
        for z in ('keep', 'allnull'):
            if s.get(z):
                o['kinds']['fault:' + z] = o['kinds'].get('fault:' + z, 0) + 1
    o['kinds']['order:' + plan['data']['dm']['order']] = 1
    solo = {i: execute(plan, i) for i in src}
    all_ = execute(plan)
    o['lines'] = all_['lines']
    common.stat(o, steps=all_['steps'])
    if plan.get('fault') is None:
        if not judge(plan, all_, solo, None, o):
            return o
        r = random.Random(plan['fault_seed'])
        faults = []
        known = sorted(sizes(plan).values())
        for _ in range(2 if known else 0):
            i = r.choice(known)
            c = sorted(solo[i]['runs'].get(i, {}))
            if c:
                n = r.choice([None] + c)
                faults.append([i, n, r.choice([1, 1, 2, 3, solo[i]['runs'][i][n or c[0]]])])
    else:
        faults = [plan['fault']]
    for f in faults:
        s2 = dict(solo)
        if f and 'err' not in solo[f[0]]:
            s2[f[0]] = execute(plan, f[0], f)
        got = execute(plan, None, f)
        o['sig'] += repr((f, sorted(got['fired'].items())))
        if got['fired']:
            o['kinds']['fault:solver'] = o['kinds'].get('fault:solver', 0) + sum(got['fired'].values())
        plan2 = plan
        if not judge(plan, got, s2, f, o, solo):
            plan2['fault'] = f
            return o
    return o


def judge(plan, all_, solo, f, o, base=None):
    """False if a violation was recorded."""
    src = plan['data']['dm']['sources']

    def bad(cls, msg):
        o['violations'].append(dict(cls=cls, msg=msg + (' (fits of source %s failing)' % f[0] if f else '')))
        return False
    errs = {i: s['err'] for i, s in solo.items() if 'err' in s}
    n = 0
    if 'err' in all_:
        new = [i for i in errs if 'err' not in (base or solo)[i]]
        mut = [i for i in errs if any(src[i].get(z) for z in ('keep', 'allnull'))]
        if len(errs) == 0 or (len(errs) < len(solo) and (mut or (f and f[0] in new))):
            return bad('raised', 'the call with all sources raised %s; alone: %s' % (
                canon.short(all_['err']), {i: canon.short(e) for i, e in errs.items()} or 'no error'))
        o['kinds']['solo-error'] = o['kinds'].get('solo-error', 0) + 1
        return True
    for i in solo:
        if i in errs:
            continue
        for t in solo[i]['t']:
            x, y = rows(solo[i]['t'][t], i), rows(all_['t'][t], i)
            d = diff_rows(x, y, o)
            if d:
                return bad('differs:' + t, 'rows of source %s in %s differ from the call with that source alone: %s' % (
                    i, t, d))
        n += 1
    o['nontrivial'] = o['nontrivial'] or n > 1 or bool(f)
    common.stat(o, sources=n)
    return True


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)

    def tryp(mut):
        nonlocal p
        q = copy.deepcopy(p)
        if mut(q) is False or not budget():
            return
        if fails(q):
            p = q
    for i in list(p['data']['dm']['sources']):
        if len(p['data']['dm']['sources']) > 2:
            tryp(lambda q: q['data']['dm']['sources'].pop(i) and None)
    tryp(lambda q: q['data']['dm'].update(order='sorted'))
    for i in list(p['data']['dm']['sources']):
        for k in ('nan', 'w0', 'weights', 'gaps', 'keep', 'allnull'):
            if k in p['data']['dm']['sources'].get(i, {}):
                tryp(lambda q: q['data']['dm']['sources'][i].pop(k) and None)
    if 'op' in p:
        for k in ('trend', 'season', 'calendar', 'yearly', 'weekly', 'naive'):
            if k in p['op']:
                tryp(lambda q: q['op'].pop(k) and None)
    return p
