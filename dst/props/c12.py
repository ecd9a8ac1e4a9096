"""C12 - a fit that never converges is abandoned after bounded work."""
import copy

import numpy as np

from dst import canon, common, data as D, forkrun, models as M, ops, rng, seams, sim

ID = 'C12'
RULE = ('a run counts as non-trivial if a candidate really did not converge (its fit was still improving, or still '
        'failing, when the library gave it up) and the call completed')
SIZES = dict(quick=460, thorough=12000)
STUBS = ['the model function of the non-converging candidate', 'solver linear algebra (persistent failures)',
         'random draws (a fixed function of the request)', 'entropy', 'clocks']
FACTOR = 400      # the library allows 100 * n * (n + 1) evaluations


class Cap(BaseException):
    pass


def bad(r, i, kind=None):
    kind = kind or r.choice(['drift', 'drift', 'drift', 'tempting', 'tempting', 'chaos', 'fail', 'fail'])
    n = r.choice([1, 1, 2, 2, 3, 4])
    if kind == 'tempting':
        return kind, ['user', 'ub%d' % i, dict(shape='drift', n_params=n, tempting=True, level=1.5,
                                                slope=r.choice([5e-4, 1e-3]) / n)]
    if kind == 'fail':
        return kind, ['user', 'ub%d' % i, dict(shape=r.choice(['line', 'wave']))]
    if kind == 'chaos':
        return kind, ['user', 'ub%d' % i, dict(shape='chaos', n_params=n)]
    return kind, ['user', 'ub%d' % i, dict(shape='drift', n_params=n, level=r.choice([1e5, 1e6]),
                                            slope=r.choice([0.1, 1., 5.]))]


def gen(r, tier):
    plan = dict(prop=ID, models={})
    f = r.choice(['D', 'D', 'W-MON', 'MS', 'x'])
    ds = D.gen_spec(r, freqs=(f,), n=dict(D=r.choice([28, 60]), MS=30).get(f, 30))
    ds['noise'] = r.choice([3, 5])
    plan['data'] = {'d0': ds}
    if r.random() < 0.2:
        plan['data'] = {'d0': dict(sources=dict(sa=ds, sb=dict(ds, seed=r.randrange(1 << 30), level=7)))}
    nb = r.choice([1, 1, 1, 2, 3])
    kinds, specs = {}, []
    for i in range(nb):
        k, s = bad(r, i)
        kinds['ub%d' % i] = k
        specs.append(s)
    plan['kinds'] = kinds
    plan['rand'] = r.random() < 0.35     # every draw of initial parameters is another one
    plan['step'] = {k: r.choice([1, 1, 1, 2]) for k in kinds if kinds[k] == 'fail'}
    if r.random() < 0.3:
        plan['op'] = dict(fn=r.choice(['fit', 'ols']), data='d0', seed=r.randrange(1 << 30), model=specs[0],
                          kw=dict(use_cache=r.random() < 0.5))
        ds.pop('nan', None)
        plan['data'] = {'d0': ds}
        plan['kinds'] = {'ub0': kinds['ub0']}
        return plan
    good = [r.choice([['std', 'linear'], ['std', 'constant'], ['user', 'ug%d' % i, dict(shape='line')],
                      ['add', ['std', 'linear'], ['std', 'season_wday']] if f == 'D' else ['std', 'linear']])
            for i in range(r.choice([0, 1, 1, 2]))]
    tr = [copy.deepcopy(x) for x in good] + specs
    r.shuffle(tr)
    plan['op'] = dict(fn='run_forecast', data='d0', seed=r.randrange(1 << 30), trend=tr, season=[],
                      kw=dict(extrapolate_years=0.1 if f == 'D' else 1, simplify_output=False,
                              include_all_fits=r.random() < 0.7, season_add_mult=r.choice(['add', 'both', 'mult']),
                              use_cache=r.random() < 0.7))
    if r.random() < 0.5 or not good:
        plan['op']['naive'] = r.choice([[], [['std', 'naive']]])
    return plan


def nparams(plan):
    out = {}
    specs = plan['op'].get('trend') or [plan['op']['model']]
    for s in specs:
        if s[0] == 'user':
            out[s[1]] = s[2].get('n_params') or dict(line=2, wave=2, const=1, drift=1, chaos=2, hyper=2)[s[2]['shape']]
    return out


def execute(plan, drop=False):
    op = copy.deepcopy(plan['op'])
    if drop:
        op['trend'] = [s for s in op['trend'] if s[0] != 'user' or s[1] not in plan['kinds']]
        if not op['trend']:
            return None
    nsrc = len(plan['data']['d0'].get('sources', ())) or 1
    npar = nparams(plan)

    def child():
        common.setup_child('run')
        seams.name_models()
        env = ops.Env(plan).prepare()
        if not plan.get('rand'):
            rng.mode[0] = rng.stateless(op['seed'])
        ev, sv, over, fired = {}, {}, [], {}

        def limit(name):
            n = npar.get(name, 2)
            return FACTOR * n * (n + 1) * nsrc + 200

        def hit(d, name):
            d[name] = d.get(name, 0) + 1
            if name in plan['kinds'] and d[name] > limit(name):
                over.append([name, 'model evaluations' if d is ev else 'solver steps', d[name]])
                raise Cap()
        M.hooks['model'] = lambda name, size, count: hit(ev, name)

        def svd(name, fit, step):
            hit(sv, name)
            if name in plan.get('step', {}) and (step >= plan['step'][name] or fit > nsrc):
                fired[name] = fired.get(name, 0) + 1
                raise np.linalg.LinAlgError('SVD did not converge')
        seams.solver(svd)
        a = ops.prep(op, env)
        rng.seed(op['seed'])
        lines = set()
        s = sim.Sim(lines=lines, cap=8000000)

        def body():
            try:
                return ('ok', ops.call(op, env, a))
            except Exception as e:
                return ('err', canon.canon(e))
            except Cap:
                return ('cap', None)
        s.add('caller', body)
        s.run()
        t = s.tasks[0]
        if t.error is not None:
            raise t.error
        out = dict(ev=ev, sv=sv, over=over, fired=fired, steps=t.steps, lines=[common.lid(c, l) for c, l in lines],
                   viol=s.violation)
        k, v = t.result if t.result else ('cap', None)
        out['end'] = k
        if k == 'err':
            out['err'] = v
        elif k == 'ok' and op['fn'] == 'run_forecast':
            if v is None:
                out['end'], out['err'] = 'err', ('none',)
            else:
                out['t'] = {x: v[x].drop(columns=[c for c in ('model_obj',) if c in v[x]])
                            for x in ('forecast', 'data', 'metadata')}
        elif k == 'ok' and op['fn'] == 'fit':
            out['t'] = dict(metadata=v['metadata'].drop(columns=[c for c in ('model_obj',) if c in v['metadata']]))
        elif k == 'ok':
            out['success'] = bool(v.success.iloc[0])
        return out
    return forkrun.fork(child)


def run(plan):
    o = dict(violations=[], stats={}, nontrivial=False, kinds={})
    res = execute(plan)
    o['lines'] = res['lines']
    common.stat(o, steps=res['steps'], evaluations_of_bad_candidates=sum(res['ev'].get(k, 0) for k in plan['kinds']))
    for k in plan['kinds'].values():
        o['kinds']['fault:' + k] = o['kinds'].get('fault:' + k, 0) + 1
    o['kinds']['op:' + plan['op']['fn']] = 1
    o['sig'] = repr((plan['op'].get('trend') or plan['op']['model'], plan['kinds'], plan.get('step'), res['ev']))
    v = judge(plan, res, o)
    if v:
        o['violations'].append(v)
    return o


def judge(plan, res, o):
    npar = nparams(plan)
    desc = 'candidates %s' % ', '.join('%s: %s, %d parameter(s)' % (k, x, npar.get(k, 2))
                                       for k, x in sorted(plan['kinds'].items()))
    if res['over']:
        n, what, c = res['over'][0]
        return dict(cls='unbounded', msg='candidate %s is not given up: more than %d %s (%s)' % (n, c - 1, what, desc))
    if res['viol']:
        return dict(cls='unbounded', msg='the call does not end: %s (%s)' % (res['viol'], desc))
    if res['end'] == 'cap':
        return dict(cls='unbounded', msg='the call does not end (%s)' % desc)
    if res['end'] == 'err':
        return dict(cls='aborted', msg='the call raised %s (%s)' % (canon.short(res['err']), desc))
    # a linear candidate may converge before the step from which its fits fail: it only counts if all of them failed
    fits = len(plan['data']['d0'].get('sources', ())) or 1
    never = {k for k, x in plan['kinds'].items() if x in ('drift', 'tempting') or
             x == 'fail' and res['fired'].get(k, 0) >= fits}
    n = 0
    for k in never:
        if plan['kinds'][k] == 'fail':
            n += bool(res['sv'].get(k))
        else:
            n += res['ev'].get(k, 0) >= 20 * npar[k] * (npar[k] + 1)
    if never and n < len(never) and plan['op']['fn'] == 'run_forecast':
        o['kinds']['not-tried'] = o['kinds'].get('not-tried', 0) + 1
    if plan['op']['fn'] == 'ols':
        o['nontrivial'] = bool(n)
        if n and res['success']:
            return dict(cls='reported-fit', msg='optimize_least_squares reports success (%s)' % desc)
        return None
    meta = res['t']['metadata']
    o['nontrivial'] = bool(n)
    b = meta.loc[meta.model.isin(never)]
    if b.is_fit.astype(bool).any() or (b.status == 'FIT').any():
        return dict(cls='reported-fit', msg='candidate %s is reported as fitted (%s)' % (
            list(b.loc[b.is_fit.astype(bool)].model), desc))
    if plan['op']['fn'] == 'fit':
        return None if len(b) or not never else dict(cls='unreported', msg='no metadata (%s)' % desc)
    if b.is_best_fit.astype(bool).any():
        return dict(cls='selected', msg='a candidate that did not converge is selected (%s)' % desc)
    fc, data = res['t']['forecast'], res['t']['data']
    for nm, t in (('forecast', fc), ('data', data)):
        if t.model.isin(never).any():
            return dict(cls='rows', msg='the %s table has rows of a candidate that did not converge (%s)' % (nm, desc))
    if plan['op']['kw']['include_all_fits'] and never - set(meta.model):
        return dict(cls='unreported', msg='%s missing from the metadata (%s)' % (sorted(never - set(meta.model)), desc))
    if set(plan['kinds']) - never or plan.get('rand'):
        return None
    ref = execute(plan, drop=True)
    if ref is None:
        if plan['op'].get('naive') == [] and (~fc.is_actuals.astype(bool)).any():
            return dict(cls='rows', msg='nothing could be fitted but the output holds a forecast (%s)' % desc)
        return None
    if 't' not in ref:
        return None
    m2 = meta.loc[~meta.model.isin(never)]
    for nm, x, y in (('metadata', ref['t']['metadata'], m2), ('data', ref['t']['data'], data),
                     ('forecast', ref['t']['forecast'], fc)):
        d, bit = canon.differs(canon.canon(x.reset_index(drop=True)), canon.canon(y.reset_index(drop=True)))
        common.stat(o, compared=1, bitwise=int(bit))
        if d:
            return dict(cls='others', msg='%s differs from the call without the non-converging candidates: %s (%s)' % (
                nm, d, desc))
    return None


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)

    def tryp(mut):
        nonlocal p
        q = copy.deepcopy(p)
        mut(q)
        if budget() and fails(q):
            p = q
    if 'trend' in p['op']:
        for i in reversed(range(len(p['op']['trend']))):
            def m(q):
                s = q['op']['trend'].pop(i)
                q['kinds'].pop(s[1], None) if isinstance(s[1], str) else None
            if len(p['op']['trend']) > 1:
                tryp(m)
    for k in ('nan', 'w0', 'weights', 'gaps'):
        tryp(lambda q: q['data']['d0'].pop(k, None))
    return p
