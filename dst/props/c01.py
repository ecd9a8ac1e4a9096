"""C01 - concurrent callers each get the answer they would get alone."""
import pandas as pd

from dst import canon, common, forkrun, models as M, ops, rng, sim

ID = 'C01'
RULE = ('a run counts as non-trivial if at least one pre-emption was executed while another task was in the middle of '
        'a call (both tasks had executed library lines and neither had finished)')
SIZES = dict(quick=560, thorough=14000)
STUBS = ['thread scheduler', 'Python locks', 'clocks', 'entropy']


def gen(r, tier):
    plan = dict(prop=ID)
    if r.random() < 0.4:
        return contention(r, plan)
    data, models = ops.gen_world(r, nd=r.choice([1, 2]), nm=r.choice([1, 2, 3]))
    plan['data'], plan['models'] = data, models
    nt = r.choice([2, 2, 2, 3, 4])
    focus = r.random() < 0.4   # all tasks use one shared model in cheap calls
    tasks = []
    for i in range(nt):
        if i and r.random() < 0.45:
            import copy
            t = copy.deepcopy(tasks[0])   # the same calls on the same objects, other seeds
            for o in t:
                if r.random() < 0.7:
                    o['seed'] = r.randrange(1 << 30)
                if r.random() < 0.5 and len(data) > 1:
                    o['data'] = r.choice([d for d in data if d != 'dm'])
            tasks.append(t)
        else:
            tasks.append([ops.gen_op(r, plan, heavy=0.05 if focus else 0.25, shared=1.0 if focus else 0.75)
                          for _ in range(r.choice([1, 1, 2]))])
    plan['tasks'] = tasks
    plan['sched_seed'] = r.randrange(1 << 30)
    plan['switches'] = None
    return plan


def contention(r, plan):
    """Few shared models, several near-duplicate series, cheap calls: every library line is a likely switch point."""
    theme = r.choice(['any', 'any', 'any', 'cal', 'cal', 'cache', 'naive', 'naive', 'compose'])
    plan['data'], plan['models'] = ops.gen_world(r, nd=r.choice([2, 3]), nm=r.choice([1, 2]), near=0.85, multi=0,
                                                 special=0.6, freqs=None if theme in ('any', 'cache') else ('D',))
    d0 = plan['data']['d0']
    fns = ops.cheap_fns(r)
    if theme == 'cal':
        plan['models']['m0'] = M.gen_special(r, d0, r.choice(['cal', 'cal', 'hol', 'hol', 'dummy', 'spike']))
        fns = r.sample(['eval', 'ceval', 'init_cache', 'extrap', 'residuals', 'compose', 'build'], 3)
    elif theme == 'cache':
        plan['models']['m0'] = M.gen_special(r, d0, 'std')
        fns = ['init_cache', 'ceval'] + r.sample(['eval', 'extrap', 'residuals', 'compose'], 1)
    elif theme == 'naive':
        fns = ['aeval', 'extrap'] + r.sample(['pi', 'interp', 'normalize', 'freq'], 1)
    elif theme == 'compose':
        plan['models']['m0'], plan['models']['m1'] = ['std', r.choice(['linear', 'constant', 'ramp'])], M.gen_special(r, d0)
        fns = ['compose', 'cmp'] + r.sample(['build', 'simplify', 'init_params', 'list_model', 'auto_season'], 1)
    mk = sorted(plan['models'])
    if d0['freq'] != 'x' and (theme == 'cal' or r.random() < 0.3 or any(
            M.mentions(m, 'cal') for m in plan['models'].values())):
        # holiday rules: other date ranges (disjoint, overlapping, nested)
        for k in sorted(plan['data']):
            if k != 'd0' and r.random() < 0.8:
                plan['data'][k] = dict(d0, start=str((pd.Timestamp(d0['start']) + pd.Timedelta(
                    days=r.choice([-365, -30, -10, 5, 20, 365]))).date()), n=d0['n'] + r.choice([0, 0, 10]))
    base = [ops.gen_cheap(r, plan, mk, fns) for _ in range(r.choice([2, 3]))]
    tasks = []
    for i in range(r.choice([2, 2, 3])):
        t = []
        for _ in range(r.choice([2, 3, 4])):
            o = dict(r.choice(base)) if r.random() < 0.8 else ops.gen_cheap(r, plan, mk, fns)
            if r.random() < 0.6:
                o['data'] = r.choice(sorted(plan['data']))
            if r.random() < 0.3:
                o['pseed'] = r.choice([1, 2, 3])
            t.append(o)
        tasks.append(t)
    plan.update(tasks=tasks, sched_seed=r.randrange(1 << 30), switches=None, nsched=12)
    return plan


def solos(plan):
    """Pristine solo outcome of every op; identical ops are executed once."""
    memo = {}
    res = []
    for t in plan['tasks']:
        row = []
        for op in t:
            k = repr(sorted(op.items(), key=str))
            if k not in memo:
                memo[k] = common.solo(plan, op, want_trace=True)
            row.append(memo[k])
        res.append(row)
    return res


def run(plan):
    import random
    ref = solos(plan)
    nt = len(plan['tasks'])
    o = dict(violations=[], stats={}, nontrivial=False, kinds={})
    scheds = []
    if plan.get('switches') is not None:
        scheds = [(plan['switches'], 'given')]
    else:
        r = random.Random(plan['sched_seed'])
        steps = [sum(s['steps'] for s in row) for row in ref]
        traces = []
        for row in ref:
            tr, base = {}, 0
            for s in row:
                for ln, v in s['trace'].items():
                    tr.setdefault(ln, []).extend(base + x for x in v)
                base += s['steps']
            traces.append(tr)
        for _ in range(plan.get('nsched', 3)):
            scheds.append(common.gen_switches(r, traces, steps, nt,
                                              'gate' if plan.get('nsched') and r.random() < 0.3 else None))
    for row in plan['tasks']:
        for op in row:
            o['kinds']['op:' + op['fn']] = o['kinds'].get('op:' + op['fn'], 0) + 1
    for row in ref:
        for s in row:
            k = common.kinds_of(s['out'])
            o['kinds'][k] = o['kinds'].get(k, 0) + 1
    o['lines'] = [l for row in ref for s in row for l in s['lines']]
    o['sig'] = ''
    for sw, kind in scheds:
        one(plan, ref, sw, kind, o)
        if o['violations']:
            plan['switches'] = sw
            break
    return o


def one(plan, ref, switches, kind, o):
    nt = len(plan['tasks'])
    cap = 4 * sum(s['steps'] for row in ref for s in row) + 400000

    def child():
        common.setup_child('run')
        env = ops.Env(plan).prepare()
        s = sim.Sim(cap=cap)
        s.swap = (rng.save, rng.restore)
        for i, t in enumerate(plan['tasks']):
            def body(t=t):
                return [ops.outcome(op, env) for op in t]
            ev = [(st, 'switch', to) for a, st, to in switches if a == i]
            s.add('t%d' % i, body, ev)
        s.run()
        err = [repr(t.error) for t in s.tasks if t.error is not None]
        return dict(outs=[t.result for t in s.tasks], viol=s.violation, sw=s.switches, err=err,
                    steps=[t.steps for t in s.tasks])
    try:
        res = forkrun.fork(child)
    except forkrun.ChildHang:
        o['violations'].append(dict(cls='hang', msg='the interleaved calls blocked for ever (no task makes progress)'))
        return
    if res['err']:
        raise forkrun.HarnessError('task error: %s' % res['err'])
    if res['viol']:
        o['violations'].append(dict(cls=res['viol'][0], msg='%s: %s' % tuple(res['viol'])))
    else:
        for i, (row, got) in enumerate(zip(ref, res['outs'])):
            for j, (rr, g) in enumerate(zip(row, got)):
                d, bit = canon.differs(rr['out'], g)
                common.stat(o, compared=1, bitwise=int(bit))
                if d:
                    op = plan['tasks'][i][j]
                    o['violations'].append(dict(cls='differs', op=op['fn'],
                                                msg='task %d call %d (%s) differs from its solo result: %s' % (
                                                    i, j, op['fn'], d)))
    common.stat(o, switches=len(res['sw']), steps=sum(res['steps']), tasks=nt, schedules=1)
    o['nontrivial'] = o['nontrivial'] or bool(res['sw'])
    o['sig'] += repr([(a, w, b) for a, n, b, w in res['sw']])
    k = 'sched:' + kind
    o['kinds'][k] = o['kinds'].get(k, 0) + 1


def shrink(plan, fails, budget):
    """fails(plan) -> bool: still the same violation class."""
    import copy
    p = copy.deepcopy(plan)

    def with_(**kw):
        q = copy.deepcopy(p)
        q.update(kw)
        return q
    sw = common.ddmin_list(p['switches'], lambda s: fails(with_(switches=s)), budget)
    p['switches'] = sw
    # drop whole operations (steps shift, so this only sometimes works)
    for i in range(len(p['tasks'])):
        for j in reversed(range(len(p['tasks'][i]))):
            if len(p['tasks'][i]) > 1 and budget():
                t = copy.deepcopy(p['tasks'])
                del t[i][j]
                if fails(with_(tasks=t)):
                    p['tasks'] = t
    if len(p['tasks']) > 2:
        used = {a for a, _, _ in p['switches']} | {c for _, _, c in p['switches']}
        for i in range(len(p['tasks'])):
            if i not in used and budget():
                t = copy.deepcopy(p['tasks'])
                t[i] = [dict(fn='freq', data=sorted(p['data'])[0], seed=1)]
                if fails(with_(tasks=t)):
                    p['tasks'] = t
    return p
