"""C17 - a worker process forked at any moment computes what a fresh process would."""
import copy
import random

from dst import canon, common, forkrun, ops, rng, sim
from dst.props import c01

ID = 'C17'
RULE = ('a run counts as non-trivial if at least one worker process was forked while a thread of the parent was in the '
        'middle of a library call')
SIZES = dict(quick=360, thorough=9000)
STUBS = ['thread scheduler', 'Python locks', 'clocks', 'entropy', 'moment of the fork']


def gen(r, tier):
    plan = c01.gen(r, tier)
    plan['prop'] = ID
    plan['tasks'] = plan['tasks'][:r.choice([1, 1, 2, 3])]
    kids = []
    for _ in range(r.choice([2, 3])):
        k = copy.deepcopy(r.choice(r.choice(plan['tasks'])))
        what = r.choice(['same', 'data', 'model', 'other', 'pseed'])
        if what == 'data' and k['data'] != 'dm':
            k['data'] = r.choice(sorted(d for d in plan['data'] if d != 'dm'))
        elif what == 'model' and 'model' in k:
            k['model'] = ['ref', r.choice(sorted(plan['models']))]
        elif what == 'other':
            k = ops.gen_cheap(r, plan)
        elif what == 'pseed':
            k['pseed'], k['seed'] = r.choice([1, 2, 3]), r.randrange(1 << 30)
        kids.append(k)
    plan.update(kids=kids, schedules=None, nsched=4)
    plan.pop('switches', None)
    return plan


def run(plan):
    memo = {}

    def alone(op):
        k = repr(sorted(op.items(), key=str))
        if k not in memo:
            memo[k] = common.solo(plan, op, want_trace=True)
        return memo[k]
    ref = [[alone(op) for op in t] for t in plan['tasks']]
    kref = [alone(op) for op in plan['kids']]
    nt = len(plan['tasks'])
    o = dict(violations=[], stats={}, nontrivial=False, kinds={})
    if plan.get('schedules') is not None:
        scheds = plan['schedules']
    else:
        r = random.Random(plan['sched_seed'])
        traces, steps = [], [sum(s['steps'] for s in row) for row in ref]
        for row in ref:
            tr, base = {}, 0
            for s in row:
                for ln, v in s['trace'].items():
                    tr.setdefault(ln, []).extend(base + x for x in v)
                base += s['steps']
            traces.append(tr)
        scheds = []
        for _ in range(plan.get('nsched', 4)):
            sw = common.gen_switches(r, traces, steps, nt, r.choice(['few', 'line', 'hot']))[0] if nt > 1 else []
            forks = []
            for _ in range(r.choice([1, 2, 3])):
                i = r.randrange(nt)
                if traces[i] and r.random() < 0.8:
                    ln = common.pick_line(r, traces[i], 0.5)
                    st = r.choice(traces[i][ln]) + r.choice([0, 1])
                else:
                    st = r.randint(1, max(1, steps[i]))
                forks.append([i, st, r.randrange(len(plan['kids']))])
            scheds.append(dict(switches=sw, forks=sorted(forks)))
    for op in [op for t in plan['tasks'] for op in t]:
        o['kinds']['op:' + op['fn']] = o['kinds'].get('op:' + op['fn'], 0) + 1
    for op in plan['kids']:
        o['kinds']['kid:' + op['fn']] = o['kinds'].get('kid:' + op['fn'], 0) + 1
    o['lines'] = [l for row in ref for s in row for l in s['lines']]
    o['sig'] = ''
    for sc in scheds:
        one(plan, ref, kref, sc, o)
        if o['violations']:
            plan['schedules'] = [sc]
            break
    return o


def one(plan, ref, kref, sc, o):
    nt = len(plan['tasks'])
    cap = 4 * sum(s['steps'] for row in ref for s in row) + 400000

    def child():
        common.setup_child('run')
        env = ops.Env(plan).prepare()
        s = sim.Sim(cap=cap)
        s.swap = (rng.save, rng.restore)
        res = []
        for i, t in enumerate(plan['tasks']):
            def body(t=t):
                return [ops.outcome(op, env) for op in t]
            ev = [(st, 'switch', to) for a, st, to in sc['switches'] if a == i]
            ev += [(st, 'switch', nt + j) for j, (a, st, _) in enumerate(sc['forks']) if a == i]
            s.add('t%d' % i, body, ev)

        def worker(k):
            def kid():
                # only the forking thread lives on in the child
                sim.cur = None
                return ops.outcome(plan['kids'][k], env)
            mid = sum(1 for t in s.tasks[:nt] if not t.done and t.steps)
            try:
                res.append((k, mid, 'out', forkrun.fork(kid, idle=8, timeout=120, ticks=True)))
            except forkrun.ChildHang:
                res.append((k, mid, 'hang', None))
            except forkrun.ChildDied as e:
                res.append((k, mid, 'died', e.status))
        for j, (_, _, k) in enumerate(sc['forks']):
            s.add('f%d' % j, lambda k=k: worker(k))
        s.run()
        err = [repr(t.error) for t in s.tasks if t.error is not None]
        return dict(outs=[t.result for t in s.tasks[:nt]], viol=s.violation, sw=s.switches, err=err, res=res,
                    steps=[t.steps for t in s.tasks])
    try:
        res = forkrun.fork(child)
    except forkrun.ChildHang:
        o['violations'].append(dict(cls='hang', msg='the calls of the parent process blocked for ever'))
        return
    if res['err']:
        raise forkrun.HarnessError('task error: %s' % res['err'])
    if res['viol']:
        o['violations'].append(dict(cls=res['viol'][0], msg='%s: %s' % tuple(res['viol'])))
        return
    where = {b - nt: w for a, n, b, w in res['sw'] if b >= nt}
    for j, (k, mid, what, out) in enumerate(res['res']):
        op = plan['kids'][k]
        common.stat(o, forks=1, forks_mid_call=int(bool(mid)))
        o['nontrivial'] = o['nontrivial'] or bool(mid)
        at = 'forked while %d thread(s) of the parent were in a call' % mid if mid else 'forked between calls'
        if what == 'hang':
            o['violations'].append(dict(cls='kid-hang', op=op['fn'], msg='%s in a worker process (%s) blocked for ever' % (
                op['fn'], at)))
        elif what == 'died':
            o['violations'].append(dict(cls='kid-died', op=op['fn'], msg='%s in a worker process (%s) ended it: %s' % (
                op['fn'], at, out)))
        else:
            d, bit = canon.differs(kref[k]['out'], out)
            common.stat(o, compared=1, bitwise=int(bit))
            if d:
                o['violations'].append(dict(cls='kid-differs', op=op['fn'], msg=(
                    '%s in a worker process (%s) differs from its result in a fresh process: %s' % (op['fn'], at, d))))
    for i, (row, got) in enumerate(zip(ref, res['outs'])):
        for j, (rr, g) in enumerate(zip(row, got)):
            d, bit = canon.differs(rr['out'], g)
            common.stat(o, compared=1, bitwise=int(bit))
            if d:
                op = plan['tasks'][i][j]
                o['violations'].append(dict(cls='differs', op=op['fn'], msg=(
                    'call %d of thread %d (%s) of the parent differs from its solo result: %s' % (j, i, op['fn'], d))))
    common.stat(o, switches=len(res['sw']), steps=sum(res['steps']), schedules=1)
    o['sig'] += repr([(a, w, b) for a, n, b, w in res['sw']])


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)

    def with_(**kw):
        q = copy.deepcopy(p)
        q['schedules'] = [dict(q['schedules'][0], **kw)]
        return q
    p['schedules'][0]['forks'] = common.ddmin_list(p['schedules'][0]['forks'], lambda l: fails(with_(forks=l)), budget)
    p['schedules'][0]['switches'] = common.ddmin_list(
        p['schedules'][0]['switches'], lambda l: fails(with_(switches=l)), budget)
    return p
