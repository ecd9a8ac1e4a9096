"""C11 - caching never changes a result."""
import copy
import random

from dst import canon, common, data as D, forkrun, models as M, ops, rng, sim
from dst.props import c01

ID = 'C11'
RULE = ('a run counts as non-trivial if a call with the cache switched on was compared with its cache-free result '
        'after or between other calls on the same model objects')
SIZES = dict(quick=340, thorough=9000)
STUBS = ['thread scheduler', 'Python locks', 'interrupt delivery', 'clocks', 'entropy']
NAMES = ('dm_a', 'dm_b', 'model_dummy', 'AbstractHolidayCalendar')


def dummy(r, ds, name=None):
    name = name or r.choice(NAMES)
    k = r.choice(['dfn', 'dfn', 'ddates', 'dlist', 'dhol', 'cal', 'cal', 'datelist', 'datelist'])
    if ds['freq'] == 'x':
        return ['dlist', name, sorted(r.sample(range(0, 60), 6))]
    if k == 'dfn':
        return ['dfn', name, r.choice(sorted(M.DFN))]
    if k == 'ddates':
        return ['ddates', name, M.gen_dates(r, ds)]
    if k == 'dlist':
        return ['dlist', name, sorted(r.sample(range(0, 60), 6))]
    if k == 'dhol':
        d = r.choice(M.gen_dates(r, ds))
        return ['dhol', name, int(d[5:7]), min(int(d[8:]), 28)]
    if k == 'cal':
        cs = []
        for _ in range(r.choice([1, 2, 2])):
            d = r.choice(M.gen_dates(r, ds))
            cs.append(r.choice([['uk'], ['xmas'], ['rules', r.choice([None, 'calr', 'model_dummy']),
                                                   [[int(d[5:7]), min(int(d[8:]), 28)]]]]))
        return ['cal', name, cs]
    return ['datelist', name, [M.gen_dates(r, ds) for _ in range(r.choice([1, 2]))]]


def season(r, ds):
    if ds['freq'] == 'x':
        return dummy(r, ds)
    return r.choice([['std', 'season_wday'], ['std', 'season_month'], ['std', 'season_fourier_yearly'],
                     ['std', 'season_wday_2'], ['std', 'calendar_uk'], ['std', 'calendar_ita'],
                     ['std', 'dummy_month_start'], dummy(r, ds), dummy(r, ds)])


def model(r, ds):
    k = r.random()
    if k < 0.2:
        return season(r, ds)
    if k < 0.3 and ds['freq'] != 'x':
        f = r.choice(['weekend', 'monday', 'evenx'])
        m = ['vars', 'va_' + f, f, r.choice([[], ['a_weekday'], ['a_month', 'a_weekday']])]
        return r.choice([m, ['add', m, season(r, ds)]])
    if k < 0.5:      # components of the same name
        n = r.choice(NAMES)
        m = ['add', dummy(r, ds, n), dummy(r, ds, n)]
        if r.random() < 0.4:
            m = [r.choice(['add', 'mul']), m, dummy(r, ds, r.choice([n, None]))]
        return [r.choice(['add', 'mul']), ['std', 'linear'], m] if r.random() < 0.6 else m
    if k < 0.6:
        return ['fix', [r.choice(['add', 'mul']), ['std', 'linear'], season(r, ds)], [None, 3.0, None, None]]
    t = r.choice([['std', 'linear'], ['std', 'constant'], M.gen_trend(r, ds)])
    m = [r.choice(['add', 'mul']), t, season(r, ds)]
    if r.random() < 0.4:
        m = [r.choice(['add', 'mul']), m, season(r, ds)]
    return m


def gen(r, tier):
    plan = dict(prop=ID)
    f = r.choice(['D', 'D', 'D', 'W-MON', 'MS', 'x', 'H'])
    base = D.gen_spec(r, freqs=(f,))
    data = {'d0': base}
    for i in (1, 2)[:r.choice([1, 2])]:   # other dates, other length, other frequency: same models
        s = dict(base, seed=r.randrange(1 << 30))
        for ch in r.sample(['start', 'n', 'freq', 'none', 'x0'], r.choice([1, 1, 2])):
            if ch == 'start':
                s['start'] = r.choice(['2018-01-01', '2018-01-02', '2018-01-03', '2019-06-01', '2017-12-25'])
            elif ch == 'n':
                s['n'] = base['n'] + r.choice([1, 7, -1])
                for k in ('nan', 'w0', 'gaps'):
                    s.pop(k, None)
            elif ch == 'freq' and f != 'x':
                s['freq'] = r.choice(['D', 'W-MON', 'W-SUN', 'MS'])
            elif ch == 'x0' and f == 'x':
                s['x0'] = r.choice([1, 5, 30])
        data['d%d' % i] = s
    plan['data'] = data
    plan['models'] = {}
    for i in range(r.choice([1, 2, 3])):
        if i and r.random() < 0.4:
            plan['models']['m%d' % i] = ops.near_model(r, plan['models']['m%d' % (i - 1)], base)
        else:
            plan['models']['m%d' % i] = model(r, base)
    nt = r.choice([1, 1, 2, 2, 3])
    plan['tasks'] = [[gen_op(r, plan) for _ in range(r.choice([3, 5, 7]) if nt == 1 else r.choice([1, 2, 3]))]
                     for _ in range(nt)]
    if nt > 1 and r.random() < 0.5:   # the same calls on other data
        t = copy.deepcopy(plan['tasks'][0])
        for o in t:
            o['data'] = r.choice(sorted(data))
            o['kw']['use_cache'] = r.random() < 0.7
        plan['tasks'][1] = t
    plan['sched_seed'] = r.randrange(1 << 30)
    plan['abort'] = r.random() < 0.25
    plan['switches'] = None
    return plan


def big(spec):
    return len([1 for k in ('season_month', 'fourier') for _ in range(repr(spec).count(k))])


def heavy(spec):
    """Fits of these take very long (degenerate products of many parameters): they are evaluated only."""
    return big(spec) > 1 or big(spec) and "'mul'" in repr(spec)


def gen_op(r, plan):
    d = r.choice(sorted(plan['data']))
    mk = sorted(plan['models'])
    op = dict(fn=r.choice(['fit', 'fit', 'fit', 'ols', 'ceval', 'ceval', 'ceval', 'run_forecast']), data=d,
              seed=r.randrange(1 << 30), pseed=r.randrange(1 << 30))
    kw = dict(use_cache=r.random() < 0.75)
    light = [k for k in mk if not heavy(plan['models'][k])]
    if not light:
        op['fn'] = 'ceval'
    if op['fn'] != 'ceval':
        mk = light
    if op['fn'] == 'run_forecast':
        op['trend'] = [['ref', r.choice(mk)] for _ in range(r.choice([1, 2]))]
        if r.random() < 0.5:
            op['trend'].append(['std', 'linear'])
        op['season'] = r.choice([[], [['std', 'null']], [['ref', r.choice(mk)]]])
        if r.random() < 0.3 and plan['data'][d]['freq'] != 'x':
            op['season'] = [dummy(r, plan['data'][d])]
        if r.random() < 0.5:
            op['naive'] = []
        f = plan['data'][d]['freq']
        kw.update(extrapolate_years=0.1 if f in 'DH' else 1, simplify_output=False, include_all_fits=True,
                  season_add_mult=r.choice(['add', 'mult', 'both', 'auto']))
        if r.random() < 0.2 and f == 'D':
            op['calendar'] = [dummy(r, plan['data'][d])]
        if any(big(plan['models'][k]) for k in mk):
            kw['season_add_mult'] = 'add'
            op['season'] = [x for x in op['season'] if x[0] != 'ref']
    else:
        op['model'] = ['ref', r.choice(mk)]
    op['kw'] = kw
    return op


def reference(plan):
    """Outcome of every call alone, in a pristine process, with the cache off; traces are of the cached call."""
    memo, res = {}, []
    for t in plan['tasks']:
        row = []
        for op in t:
            q = copy.deepcopy(op)
            q['kw']['use_cache'] = False
            k = repr(sorted(q.items(), key=str))
            if k not in memo:
                memo[k] = common.solo(plan, q, want_trace=True)
            row.append(memo[k])
        res.append(row)
    return res


def run(plan):
    ref = reference(plan)
    nt = len(plan['tasks'])
    o = dict(violations=[], stats={}, nontrivial=False, kinds={})
    for row in plan['tasks']:
        for op in row:
            k = 'op:%s%s' % (op['fn'], '-cached' if op['kw']['use_cache'] else '')
            o['kinds'][k] = o['kinds'].get(k, 0) + 1
    o['lines'] = [l for row in ref for s in row for l in s['lines']]
    o['sig'] = ''
    steps = [sum(s['steps'] for s in row) for row in ref]
    if plan['switches'] is not None:
        scheds = [plan['switches']]
    else:
        r = random.Random(plan['sched_seed'])
        scheds = []
        traces = []
        for row in ref:
            tr, base = {}, 0
            for s in row:
                for ln, v in s['trace'].items():
                    tr.setdefault(ln, []).extend(base + x for x in v)
                base += s['steps']
            traces.append(tr)
        for _ in range(1 if nt == 1 else 2):
            s = dict(sw=[], abort=[])
            if nt > 1:
                s['sw'], _ = common.gen_switches(r, traces, steps, nt)
            if plan['abort']:
                i = r.randrange(nt)
                if traces[i]:
                    s['abort'] = [[i, r.choice(traces[i][common.pick_line(r, traces[i])])]]
            scheds.append(s)
    for s in scheds:
        one(plan, ref, s, o)
        if o['violations']:
            plan['switches'] = s
            break
    return o


def one(plan, ref, sched, o):
    cap = 4 * sum(s['steps'] for row in ref for s in row) + 400000

    def child():
        common.setup_child('run')
        env = ops.Env(plan).prepare()
        s = sim.Sim(cap=cap)
        s.swap = (rng.save, rng.restore)
        for i, t in enumerate(plan['tasks']):
            def body(t=t):
                out = []
                for op in t:
                    try:
                        out.append(ops.outcome(op, env))
                    except KeyboardInterrupt:
                        out.append(None)
                return out
            ev = [(st, 'switch', to) for a, st, to in sched['sw'] if a == i]
            ev += [(st, 'raise', lambda: KeyboardInterrupt('injected')) for a, st in sched['abort'] if a == i]
            s.add('t%d' % i, body, ev)
        s.run()
        err = [repr(t.error) for t in s.tasks if t.error is not None]
        return dict(outs=[t.result for t in s.tasks], viol=s.violation, sw=s.switches, err=err, inj=len(s.injected),
                    steps=sum(t.steps for t in s.tasks))
    try:
        res = forkrun.fork(child)
    except forkrun.ChildHang:
        o['violations'].append(dict(cls='hang', msg='the interleaved calls blocked for ever'))
        return
    if res['err']:
        raise forkrun.HarnessError('task error: %s' % res['err'])
    common.stat(o, switches=len(res['sw']), steps=res['steps'], histories=1)
    o['kinds']['fault:preemption'] = o['kinds'].get('fault:preemption', 0) + len(res['sw'])
    if res['inj']:
        o['kinds']['fault:abort'] = o['kinds'].get('fault:abort', 0) + res['inj']
    o['sig'] += repr([(a, w, b) for a, n, b, w in res['sw']]) + repr([op['fn'] for t in plan['tasks'] for op in t])
    if res['viol']:
        o['violations'].append(dict(cls=res['viol'][0], msg='%s: %s' % tuple(res['viol'])))
        return
    n = 0
    for i, (row, got) in enumerate(zip(ref, res['outs'])):
        for j, (rr, g) in enumerate(zip(row, got)):
            n += 1
            op = plan['tasks'][i][j]
            if g is None:
                continue
            if rr['out'][0] == 'err' and g[0] == 'err':
                k = 'both-fail'
                o['kinds'][k] = o['kinds'].get(k, 0) + 1
                if rr['out'][1][1] == g[1][1]:
                    continue
            d, bit = canon.differs(rr['out'], g)
            c = op['kw']['use_cache']
            common.stat(o, compared=1, bitwise=int(bit), compared_cached=int(c))
            if c and n > 1 and rr['out'][0] == 'ok':
                o['nontrivial'] = True
            if d:
                o['violations'].append(dict(cls='differs', msg='call %d of caller %d (%s, cache %s) differs from the '
                                            'same call alone without cache: %s' % (j, i, op['fn'], 'on' if c else
                                                                                   'off', d)))
                return


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)

    def with_(**kw):
        q = copy.deepcopy(p)
        q.update(kw)
        return q
    sw = common.ddmin_list(p['switches']['sw'],
                           lambda s: fails(with_(switches=dict(p['switches'], sw=s))), budget)
    p['switches'] = dict(p['switches'], sw=sw)
    if p['switches']['abort'] and fails(with_(switches=dict(p['switches'], abort=[]))):
        p['switches'] = dict(p['switches'], abort=[])
    for i in range(len(p['tasks'])):
        for j in reversed(range(len(p['tasks'][i]))):
            if sum(map(len, p['tasks'])) > 1 and budget():
                t = copy.deepcopy(p['tasks'])
                del t[i][j]
                if fails(with_(tasks=t)):
                    p['tasks'] = t
    return p
