"""C04 - a candidate that cannot be fitted harms no other candidate."""
import copy
import random

import numpy as np
import pandas as pd

from dst import canon, common, data as D, forkrun, models as M, ops, rng, seams, sim

ID = 'C04'
RULE = ('a run counts as non-trivial if at least one candidate really failed (an injected solver failure fired or a '
        'validation declined) while at least one other candidate was offered')
SIZES = dict(quick=150, thorough=4500)
STUBS = ['solver linear algebra (injected failures)', 'random draws (a fixed function of the request)', 'entropy',
         'clocks']
DECL = ('false', 'npfalse', 'assert')


def gen(r, tier):
    plan = dict(prop=ID)
    f = r.choice(['D', 'D', 'D', 'W-MON', 'MS', 'x'])
    plan['mode'] = r.choice(['list', 'list', 'list', 'product', 'product', 'default', 'auto'])
    if plan['mode'] == 'auto':
        f = 'D'
    ds = D.gen_spec(r, freqs=(f,), n=dict(D=r.choice([28, 60, 70]), MS=30).get(f, 30))
    ds.pop('gaps', None)
    if plan['mode'] == 'auto':
        ds.update(n=80, pos=True, level=500)
        ds.pop('nan', None)
    plan['data'] = {'d0': ds}
    plan['models'] = {}
    kw = dict(extrapolate_years=0.1 if f != 'MS' else 1, simplify_output=False, include_all_fits=r.random() < 0.75,
              season_add_mult=r.choice(['add', 'mult', 'both']))
    if plan['mode'] == 'auto':
        kw['season_add_mult'] = 'auto'
    op = dict(fn='run_forecast', data='d0', seed=r.randrange(1 << 30), kw=kw)

    def decl(k):
        return ['user', 'uv' + k, dict(shape=r.choice(['line', 'const', 'wave']),
                                       valid=r.choice(['true', 'true', 'nothing']))]

    def comp():
        t = r.choice([M.gen_trend(r, ds), M.gen_trend(r, ds), decl(r.choice('abc'))])
        if r.random() < 0.5:
            return [r.choice(['add', 'mul']), t, M.gen_season(r, ds)]
        return t
    if plan['mode'] == 'list':
        op['trend'] = [comp() for _ in range(r.choice([2, 3, 4, 5]))]
        op['season'] = []
        if r.random() < 0.4:
            op['naive'] = r.choice([[], [['std', 'naive']]])
    else:
        op['trend'] = [r.choice([['std', 'linear'], ['std', 'constant'], decl('a'), M.gen_trend(r, ds)])
                       for _ in range(r.choice([1, 2]))]
        if plan['mode'] != 'default':
            op['season'] = [M.gen_season(r, ds) for _ in range(r.choice([1, 2]))]
        if r.random() < 0.3:
            op['naive'] = []
        if r.random() < 0.2:
            del op['trend']
    plan['op'] = op
    plan['fault_seed'] = r.randrange(1 << 30)
    plan['faults'] = None
    return plan


def execute(plan, faults=None, drop=(), kw=None):
    """One forecast in a pristine child, under faults: {'solver': {name: [fit, step]}, 'decline': {user: mode}}.
    drop: candidate names left out. Returns dict(err | tables, fired, runs)."""
    faults = faults or {}
    op = copy.deepcopy(plan['op'])
    op['kw'].update(kw or {})

    def child():
        common.setup_child('run')
        seams.name_models()
        env = ops.Env(plan).prepare()
        rng.mode[0] = rng.stateless(op['seed'])
        M.decline.update(faults.get('decline', {}))
        fired, runs = set(), {}

        def svd(name, fit, step):
            runs[(name, fit)] = step
            f = faults.get('solver', {}).get(name)
            if f and (fit == f[0] if f[2] else fit >= f[0]) and (step >= f[1] or fit > f[0]):
                fired.add(name)
                raise np.linalg.LinAlgError('SVD did not converge')
        seams.solver(svd)
        a = ops.prep(op, env)
        if drop:
            names = {m.name for m in a['trend']}
            a['trend'] = [m for m in a['trend'] if not any(
                n == m.name or (n not in names and is_of(n, m.name)) for n in drop)]
        rng.seed(op['seed'])
        lines = set()
        s = sim.Sim(lines=lines)

        def body():
            try:
                return ('ok', ops.call(op, env, a))
            except Exception as e:
                return ('err', canon.canon(e))
        s.add('caller', body)
        s.run()
        if s.tasks[0].error is not None:
            raise s.tasks[0].error
        k, v = s.tasks[0].result
        out = dict(fired=sorted(fired), runs=sorted([n, f, st] for (n, f), st in runs.items()),
                   lines=[common.lid(c, l) for c, l in lines], steps=s.tasks[0].steps)
        if k == 'err':
            out['err'] = v
        elif v is None:
            out['err'] = ('none',)
        else:
            out['t'] = {x: v[x].drop(columns=[c for c in ('model_obj',) if c in v[x]])
                        for x in ('forecast', 'data', 'metadata')}
        return out
    return forkrun.fork(child)


def is_of(meta_name, model_name):
    return meta_name == model_name or meta_name.startswith(model_name + '_fixed_')


def rows(df, ignore=('fit_time', 'is_best_fit')):
    return canon.canon(df[[c for c in df if c not in ignore]].reset_index(drop=True))


def pick_faults(r, ref, plan):
    cand = sorted({n for n, f, s in ref['runs']})
    out = dict(solver={}, decline={})
    if plan['mode'] == 'auto':      # the fit behind the detection is called like a candidate: never both
        if cand != ['linear']:
            cand = [c for c in cand if c != 'linear']
    auto = plan['mode'] == 'auto' and ['linear', 2] in [[n, f] for n, f, _ in ref['runs']]
    if auto or (plan['mode'] == 'auto' and (cand == ['linear'] or r.random() < 0.3) and
                   any(x[0] == 'linear' for x in ref['runs'])):
        n, f, s = next(x for x in ref['runs'] if x[0] == 'linear' and x[1] == 1)
        out['solver']['linear'] = [1, r.choice([1, 2, max(1, s)]), True]
        return out
    k = r.choice([1, 1, 2, len(cand)])
    for n in r.sample(cand, min(k, len(cand))):
        st = next(s for x, f, s in ref['runs'] if x == n)
        out['solver'][n] = [1, r.choice([1, 1, 2, max(1, st), r.randint(1, max(1, st))]), False]
    us = sorted({u for u in ('uva', 'uvb', 'uvc') if repr(plan['op']).count("'%s'" % u)})
    for u in us:
        if r.random() < 0.5:
            out['decline'][u] = r.choice(DECL)
            if r.random() < 0.5:
                out['solver'] = {}
    return out


def run(plan):
    o = dict(violations=[], stats={}, nontrivial=False, kinds={})
    ref = execute(plan)
    o['lines'] = ref['lines']
    o['kinds']['mode:' + plan['mode']] = 1
    common.stat(o, steps=ref['steps'])
    if 'err' in ref:
        o['kinds']['reference:' + (ref['err'][1] if len(ref['err']) > 1 else 'none')] = 1
        return o
    o['sig'] = ''
    if plan.get('faults') is not None:
        fs = [plan['faults']]
    else:
        r = random.Random(plan['fault_seed'])
        fs = [pick_faults(r, ref, plan) for _ in range(3)]
    for f in fs:
        if not f['solver'] and not f['decline']:
            continue
        got = execute(plan, f)
        v = judge(plan, ref, f, got, o)
        o['sig'] += repr((sorted(f['solver'].items()), sorted(f['decline'].items()), got['fired']))
        if v:
            plan['faults'] = f
            o['violations'].append(v)
            break
    return o


def judge(plan, ref, f, got, o):
    for n in got['fired']:
        o['kinds']['fault:solver'] = o['kinds'].get('fault:solver', 0) + 1
    for n, m in f['decline'].items():
        o['kinds']['fault:decline-' + m] = o['kinds'].get('fault:decline-' + m, 0) + 1
    desc = 'solver failures in %s, declined by %s' % (got['fired'], sorted(f['decline'].items()))
    if 'err' in got:
        return dict(cls='aborted', msg='the forecast call raised %s (%s)' % (canon.short(got['err']), desc))
    if plan['mode'] == 'auto' and f['solver'] and 'linear' in f['solver'] and f['solver']['linear'][2]:
        if not got['fired']:
            return None
        o['nontrivial'] = True
        o['kinds']['fault:detection-fit'] = o['kinds'].get('fault:detection-fit', 0) + 1
        f2 = None if ['linear', 2] in [[n, x] for n, x, _ in ref['runs']] else dict(solver={'linear': [1, 1, False]})
        alts = [execute(plan, f2, kw=dict(season_add_mult=m)) for m in ('add', 'mult')]
        for alt in alts:
            if 't' in alt and all(canon.differs(canon.canon(alt['t'][k]), canon.canon(got['t'][k]))[0] is None
                                  for k in alt['t']):
                return None
        return dict(cls='detection', msg='with the fit behind automatic seasonality detection failing, the result is '
                    'neither the additive nor the multiplicative one')
    meta, data, fc = got['t']['metadata'], got['t']['data'], got['t']['forecast']
    rmeta, rdata = ref['t']['metadata'], ref['t']['data']

    def failed(n):
        return n in got['fired'] or any(u in n for u in f['decline'])
    if plan['op']['kw']['include_all_fits']:
        ref_names = sorted(rmeta.model)
        bad = [n for n in ref_names if failed(n)]
        if bad and len(ref_names) > len(bad):
            o['nontrivial'] = True
        common.stat(o, failed_candidates=len(bad), other_candidates=len(ref_names) - len(bad))
        for n in sorted(set(ref_names)):
            names = [n]
            a = rmeta.loc[rmeta.model == n]
            b = meta.loc[meta.model == n]
            if b.empty and failed(n):
                base = n.split('_fixed_')[0]
                b = meta.loc[meta.model == base]
                names.append(base)
            if len(b) != len(a):
                return dict(cls='unreported', msg='candidate %s has %d metadata row(s), expected %d (%s)' % (
                    n, len(b), len(a), desc))
            if failed(n):
                if b.is_fit.astype(bool).any():
                    return dict(cls='reported-fit', msg='failed candidate %s is reported as fitted (%s)' % (n, desc))
                if b.is_best_fit.astype(bool).any():
                    return dict(cls='selected', msg='failed candidate %s is selected (%s)' % (n, desc))
                if data.loc[data.model.isin(names) & ~data.is_actuals.astype(bool)].shape[0]:
                    return dict(cls='failed-rows', msg='failed candidate %s has forecast rows (%s)' % (n, desc))
            else:
                d, bit = canon.differs(rows(a), rows(b))
                if not d:
                    d, bit = canon.differs(rows(rdata.loc[rdata.model == n]), rows(data.loc[data.model == n]))
                common.stat(o, compared=1, bitwise=int(bit))
                if d:
                    return dict(cls='other-changed', msg='candidate %s changed because another one failed (%s): %s' % (
                        n, desc, d))
        fit = meta.loc[meta.is_fit.astype(bool) & ~meta.aic_c.isnull()]
        best = meta.loc[meta.is_best_fit.astype(bool)]
        if len(fit) and (len(best) != 1 or best.aic_c.iloc[0] > fit.aic_c.min()):
            return dict(cls='selection', msg='selected %s, but the lowest score is of %s (%s)' % (
                list(best.model), list(fit.sort_values('aic_c').model[:1]), desc))
        if not len(meta.loc[meta.is_fit.astype(bool)]):
            if len(best) or (~fc.is_actuals.astype(bool)).any():
                return dict(cls='all-failed', msg='no candidate could be fitted but the output holds a forecast')
            o['kinds']['all-failed'] = o['kinds'].get('all-failed', 0) + 1
        sel = list(best.model)
    else:
        sel = [n for n in meta.model]
        if any(failed(n) for n in sel):
            return dict(cls='selected', msg='failed candidate %s is selected (%s)' % (sel, desc))
        o['nontrivial'] = o['nontrivial'] or bool(got['fired'])
    fsel = sorted(set(fc.loc[~fc.is_actuals.astype(bool)].model))
    if not set(fsel) <= set(sel):
        return dict(cls='forecast-model', msg='the forecast table holds model %s, selected %s (%s)' % (fsel, sel, desc))
    # the same call with the failed candidates not offered
    if plan['mode'] == 'list' and (got['fired'] or f['decline']):
        drop = list(got['fired']) + [n for n in set(rmeta.model) | set(meta.model) if failed(n)]
        if not plan['op']['kw']['include_all_fits']:
            drop += [u for u in f['decline']]
        red = reduced(plan, drop, f)
        if red is not None and 't' in red:
            m2 = meta.loc[[not failed(n) for n in meta.model]]
            d = None
            for nm, x, y in (('metadata', red['t']['metadata'], m2), ('data', red['t']['data'], data),
                             ('forecast', red['t']['forecast'], fc)):
                d, bit = canon.differs(canon.canon(x.reset_index(drop=True)), canon.canon(y.reset_index(drop=True)))
                common.stat(o, compared=1, bitwise=int(bit))
                if d:
                    return dict(cls='reduced', msg='%s differs from the call in which the failed candidates are not '
                                'offered (%s): %s' % (nm, desc, d))
    return None


def reduced(plan, drop, f):
    # candidate specs built from a declining user model are dropped as a whole
    q = copy.deepcopy(plan)
    tr = [s for s in q['op']['trend'] if not any("'%s'" % u in repr(s) for u in f['decline'])]
    q['op']['trend'] = tr
    if not tr:
        return None
    red = execute(q, drop=drop)
    return red


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)

    def tryp(mut):
        nonlocal p
        q = copy.deepcopy(p)
        if mut(q) is False or not budget():
            return
        if fails(q):
            p = q
    for kind in ('solver', 'decline'):
        for n in sorted(p['faults'][kind]):
            tryp(lambda q: q['faults'][kind].pop(n))
    for n in sorted(p['faults']['solver']):
        tryp(lambda q: q['faults']['solver'][n].__setitem__(1, 1))
    for i in reversed(range(len(p['op'].get('trend', [])))):
        if len(p['op']['trend']) > 1:
            tryp(lambda q: q['op']['trend'].pop(i) and None)
    for k in ('nan', 'w0', 'weights', 'gaps'):
        if k in p['data']['d0']:
            tryp(lambda q: q['data']['d0'].pop(k) and None)
    return p
