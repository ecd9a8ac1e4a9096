"""C14 - concurrent plots do not mix."""
import copy
import os
import random
import shutil
import tempfile
import types

from dst import boot, common, forkrun, plots, rng, seams, sim

ID = 'C14'
PLOTS = True
RULE = ('a run counts as non-trivial if at least one pre-emption was executed while another thread was in the middle '
        'of a plot call')
SIZES = dict(quick=170, thorough=6000)
STUBS = ['thread scheduler', 'Python locks', 'clocks', 'entropy', 'web browser']
REAL = ['anticipy', 'matplotlib', 'plotly', 'pandas', 'CPython', 'file system (scratch directory)']
SHALLOW = ('matplotlib.pyplot', 'matplotlib._pylab_helpers', 'matplotlib.style.core', 'plotly.offline.offline',
           'plotly.io._html', 'plotly.subplots', 'plotly.io._base_renderers')


def setup():
    """The bookkeeping layers of the plotting libraries are pre-emption points as well."""
    import importlib
    for n in SHALLOW:
        try:
            m = importlib.import_module(n)
        except ImportError:
            continue
        for v in list(vars(m).values()):
            fs = [v] if isinstance(v, types.FunctionType) else \
                [x for x in vars(v).values()] if isinstance(v, type) and v.__module__ == n else []
            for f in fs:
                f = getattr(f, '__func__', getattr(f, 'fget', f))
                f = getattr(f, '__wrapped__', f)
                if isinstance(f, types.FunctionType) and f.__module__ == n:
                    boot.instrument(f.__code__)


def gen(r, tier):
    plan = dict(prop=ID)
    nt = r.choice([2, 2, 2, 3, 4])
    first = plots.gen_table(r, small=True)
    tabs = {'t0': first}
    for i in range(1, 4):
        if r.random() < 0.5:   # same shape, other values
            tabs['t%d' % i] = dict(first, seed=r.randrange(1 << 30))
        else:
            tabs['t%d' % i] = plots.gen_table(r, small=True)
    plan['tables'] = tabs
    out = r.choice([['png'], ['png'], ['png', 'html'], ['html']])
    tasks = []
    base = None
    for i in range(nt):
        t = []
        for j in range(r.choice([1, 1, 1, 2])):
            kw = plots.gen_kw(r, r.choice(out))
            if base is not None and r.random() < 0.4:
                kw = dict(base)
            base = kw
            if 'dpi' in kw and r.random() < 0.6:
                kw['dpi'] = r.choice([30, 40, 55, 70, 90])
            t.append(dict(table='t%d' % r.choice([i % 4, i % 4, r.randrange(4)]), kw=kw,
                          path='%sp%d%d' % (r.choice(['', 'new/', 'new/', 'n%d/' % i]) if kw['output'] == 'png' else '',
                                            i, j)))
        tasks.append(t)
    plan['tasks'] = tasks
    plan['isdir'] = []
    plan['fail'] = None
    k = r.random()
    if k < 0.2:     # one plot cannot be written
        i = r.randrange(nt)
        plan['isdir'] = [tasks[i][0]['path'] + '.' + tasks[i][0]['kw']['output']]
    elif k < 0.45:  # one plot fails half-way
        plan['fail'] = [r.randrange(nt), r.random()]
    plan['sched_seed'] = r.randrange(1 << 30)
    plan['switches'] = None
    return plan


def call(op, frames, d):
    from anticipy import forecast_plot as fp
    try:
        return ('rc', repr(fp.plot_forecast(frames[op['table']], path=os.path.join(d, op['path']), **op['kw'])))
    except Exception as e:
        return ('err', type(e).__name__)


def scratch(plan):
    d = tempfile.mkdtemp(prefix='dst-c14-')
    plots.fill(d, {p: None for p in plan['isdir']})
    return d


def solo(plan, op):
    d = scratch(plan)

    def child():
        common.setup_child('run')
        frames = {op['table']: plots.table(plan['tables'][op['table']])}
        seen = plots.watch_figures()
        rng.seed(1)
        lines = set()
        s = sim.Sim(trace=True, lines=lines)
        s.add('solo', lambda: call(op, frames, d))
        s.run()
        if s.tasks[0].error is not None:
            raise s.tasks[0].error
        return dict(out=s.tasks[0].result, steps=s.tasks[0].steps, trace=common.compress(s.trace),
                    fig=plots.mismatch_fig(frames[op['table']], op['kw'], seen[-1]) if seen else None,
                    lines=[common.lid(c, l) for c, l in lines])
    try:
        res = forkrun.fork(child)
        res['file'] = plots.norm(plots.tree(d).get(op['path'] + '.' + op['kw']['output']))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def run(plan):
    o = dict(violations=[], stats={}, nontrivial=False, kinds={}, sig='')
    memo, ref = {}, []
    for t in plan['tasks']:
        row = []
        for op in t:
            k = repr((op['table'], sorted(op['kw'].items()), os.path.dirname(op['path']), plan['isdir']))
            if k not in memo or plan['isdir']:
                memo[k] = solo(plan, op)
            row.append(memo[k])
        ref.append(row)
    nt = len(plan['tasks'])
    scheds = []
    if plan['switches'] is not None:
        scheds = [(plan['switches'], 'given', plan.get('strike'))]
    else:
        r = random.Random(plan['sched_seed'])
        steps = [sum(s['steps'] for s in row) for row in ref]
        traces = []
        for row in ref:
            tr, base = {}, 0
            for s in row:
                for ln, v in s['trace'].items():
                    tr.setdefault(ln, []).extend(base + x for x in v)
                base += s['steps']
            traces.append(tr)
        for _ in range(6):
            sw, kind = common.gen_switches(r, traces, steps, nt)
            strike = None
            if plan['fail']:
                strike = 1 + int(r.random() * ref[plan['fail'][0]][0]['steps'])
            scheds.append((sw, kind, strike))
    for t in plan['tasks']:
        for op in t:
            k = 'op:' + op['kw']['output']
            o['kinds'][k] = o['kinds'].get(k, 0) + 1
    o['lines'] = [l for row in ref for s in row for l in s['lines']]
    for row, t in zip(ref, plan['tasks']):
        for s, op in zip(row, t):
            if s['fig']:
                o['violations'].append(dict(cls='wrong-plot', msg='a plot made alone does not show its table: %s' %
                                            s['fig']))
                plan['switches'] = []
                return o
    for sw, kind, strike in scheds:
        one(plan, ref, sw, strike, o)
        o['kinds']['sched:' + kind] = o['kinds'].get('sched:' + kind, 0) + 1
        if o['violations']:
            plan['switches'], plan['strike'] = sw, strike
            break
    return o


def one(plan, ref, switches, strike, o):
    d = scratch(plan)

    def child():
        common.setup_child('run')
        frames = {k: plots.table(t) for k, t in plan['tables'].items()}
        rng.seed(1)
        s = sim.Sim(cap=3000000)
        s.swap = (rng.save, rng.restore)
        for i, t in enumerate(plan['tasks']):
            ev = [(st, 'switch', to) for a, st, to in switches if a == i]
            if strike and plan['fail'] and plan['fail'][0] == i:
                ev.append((strike, 'raise', lambda: OSError(5, 'injected')))
            s.add('t%d' % i, lambda t=t: [call(op, frames, d) for op in t], ev)
        s.run()
        return dict(outs=[t.result for t in s.tasks], viol=s.violation, sw=s.switches, inj=s.injected,
                    err=[repr(t.error) for t in s.tasks if t.error is not None], browser=list(seams.browser))
    try:
        try:
            res = forkrun.fork(child)
        except forkrun.ChildHang:
            o['violations'].append(dict(cls='hang', msg='the concurrent plots blocked for ever'))
            return
        files = plots.tree(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if res['err']:
        raise forkrun.HarnessError('task error: %s' % res['err'])
    common.stat(o, switches=len(res['sw']), schedules=1)
    o['nontrivial'] = o['nontrivial'] or bool(res['sw'])
    o['sig'] += repr([(a, w, b) for a, n, b, w in res['sw']])
    if res['inj']:
        o['kinds']['fault:failure-half-way'] = o['kinds'].get('fault:failure-half-way', 0) + 1
    if plan['isdir']:
        o['kinds']['fault:unwritable-target'] = o['kinds'].get('fault:unwritable-target', 0) + 1
    if res['viol']:
        o['violations'].append(dict(cls=res['viol'][0], msg='%s: %s' % tuple(res['viol'])))
        return
    hurt = {x[0] for x in res['inj']}
    names = set()
    for i, (t, row) in enumerate(zip(plan['tasks'], ref)):
        for j, (op, r) in enumerate(zip(t, row)):
            p = op['path'] + '.' + op['kw']['output']
            names.add(p)
            got = res['outs'][i][j]
            who = 'plot %d of thread %d (%s)' % (j, i, op['kw']['output'])
            common.stat(o, compared=1)
            if i in hurt:
                continue    # which of its plots the failure struck depends on the schedule
            if got != r['out']:
                o['violations'].append(dict(cls='differs', msg='%s ends with %s, alone with %s' % (who, got, r['out'])))
                return
            if r['out'] == ('rc', '0') and plots.norm(files.get(p)) != r['file']:
                o['violations'].append(dict(cls='differs', msg='%s: the file is not the plot made alone (%s)' % (
                    who, whose(plan, ref, plots.norm(files.get(p))))))
                return
    for p in files:
        if files[p] is not None and p not in names:
            o['violations'].append(dict(cls='other-file', msg='the plots left an additional file %s' % p))
            return


def whose(plan, ref, data):
    if data is None:
        return 'it is missing'
    for i, row in enumerate(ref):
        for j, r in enumerate(row):
            if r['file'] == data:
                return 'it is plot %d of thread %d' % (j, i)
    return '%d bytes' % len(data)


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)

    def with_(**kw):
        q = copy.deepcopy(p)
        q.update(kw)
        return q
    if p['switches']:
        p['switches'] = common.ddmin_list(p['switches'], lambda s: fails(with_(switches=s)), budget)
    if p.get('strike') and budget() and fails(with_(strike=None)):
        p['strike'] = None
    used = {a for a, _, _ in p['switches']} | {c for _, _, c in p['switches']}
    for i in reversed(range(len(p['tasks']))):
        if i not in used and len(p['tasks']) > 2 and budget() and i == len(p['tasks']) - 1:
            q = with_(tasks=p['tasks'][:i])
            if q['fail'] and q['fail'][0] >= i:
                continue
            if fails(q):
                p = q
    return p
