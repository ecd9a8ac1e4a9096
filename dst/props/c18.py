"""C18 - re-entrant calls: a call made in the middle of another one by the same thread."""
import copy
import random

from dst import canon, common, forkrun, models, ops, rng, sim
from dst.props import c01, c17

ID = 'C18'
RULE = ('a run counts as non-trivial if at least one nested call ran to its end while the outer call was in the middle of '
        'its work')
SIZES = dict(quick=420, thorough=10000)
STUBS = ['delivery of signals (a handler runs at the chosen library line)', 'Python locks', 'clocks', 'entropy']
HOOKS = ['model', 'init', 'bounds', 'valid', 'dummy']


def gen(r, tier):
    if r.random() < 0.3:
        return fits(r, dict(prop=ID))
    plan = c17.gen(r, tier)
    plan['prop'] = ID
    plan['tasks'] = plan['tasks'][:1]
    plan['nsched'] = 5
    return plan


def fits(r, plan):
    """Fits (whole optimisations) on models with tabulated components, nested in one another on different data."""
    plan['data'], plan['models'] = ops.gen_world(r, nd=2, nm=1, multi=0, near=0.7, special=0.5)
    for s in plan['data'].values():
        for k in ('nan', 'w0', 'gaps'):
            s[k] = [i for i in s.get(k, []) if i < 30]
        s['n'] = min(s['n'], 40)
    d0 = plan['data']['d0']
    base = [['std', r.choice(['linear', 'constant'])],
            ['user', 'uc', dict(shape=r.choice(['line', 'const']))]]
    for i in (0, 1):
        m = r.choice(base)
        if r.random() < 0.85:
            m = [r.choice(['add', 'add', 'mul']), m, models.gen_special(r, d0, r.choice(['std', 'std', 'dummy', 'cal', 'hol', 'vars']))]
        plan['models']['m%d' % i] = m

    def op():
        k = r.choice(['fit', 'fit', 'ols', 'run_forecast'])
        o = dict(fn=k, data=r.choice(['d0', 'd1']), seed=r.randrange(1 << 30), pseed=1)
        m = ['ref', r.choice(['m0', 'm1'])]
        if k == 'run_forecast':
            o.update(trend=[m], season=[], kw=dict(extrapolate_years=dict(D=0.1, H=0.01).get(d0['freq'], 1),
                                                   season_add_mult='add'))
        else:
            o.update(model=m, kw=dict(use_cache=r.random() < 0.8))
        return o
    plan['tasks'] = [[op()]]
    kids = []
    for _ in range(3):
        k = op()
        if r.random() < 0.5:
            k['data'] = 'd1' if plan['tasks'][0][0]['data'] == 'd0' else 'd0'
        kids.append(k)
    plan.update(kids=kids, sched_seed=r.randrange(1 << 30), schedules=None, nsched=6)
    return plan


def run(plan):
    memo = {}

    def alone(op):
        k = repr(sorted(op.items(), key=str))
        if k not in memo:
            memo[k] = common.solo(plan, op, want_trace=True)
        return memo[k]
    outer = plan['tasks'][0]
    ref = [alone(op) for op in outer]
    kref = [alone(op) for op in plan['kids']]
    o = dict(violations=[], stats={}, nontrivial=False, kinds={})
    if plan.get('schedules') is not None:
        scheds = plan['schedules']
    else:
        r = random.Random(plan['sched_seed'])
        scheds = []
        for _ in range(plan.get('nsched', 5)):
            l = []
            for _ in range(r.choice([1, 1, 2, 3])):
                i = r.randrange(len(outer))
                k = r.randrange(len(plan['kids']))
                x = r.random()
                if x < 0.2:
                    l.append([i, 'hook', r.choice(HOOKS), r.choice([1, 1, 2, 3, 6]), k])
                elif x < 0.85 and ref[i]['trace']:
                    tr = ref[i]['trace']
                    l.append([i, 'line', r.choice(tr[common.pick_line(r, tr, 0.5)]) + r.choice([0, 1]), 0, k])
                else:
                    l.append([i, 'line', r.randint(1, max(1, ref[i]['steps'])), 0, k])
            scheds.append(l)
    for op in outer:
        o['kinds']['op:' + op['fn']] = o['kinds'].get('op:' + op['fn'], 0) + 1
    for op in plan['kids']:
        o['kinds']['nested:' + op['fn']] = o['kinds'].get('nested:' + op['fn'], 0) + 1
    o['lines'] = [l for s in ref for l in s['lines']]
    o['sig'] = ''
    for sc in scheds:
        one(plan, ref, kref, sc, o)
        if o['violations']:
            plan['schedules'] = [sc]
            break
    return o


def one(plan, ref, kref, sc, o):
    outer = plan['tasks'][0]
    cap = 4 * sum(s['steps'] for s in ref) + 400000

    def child():
        common.setup_child('run')
        env = ops.Env(plan).prepare()
        s = sim.Sim(cap=cap)
        s.swap = (rng.save, rng.restore)
        nested, armed, busy = [], [], [0]

        def enter(k, where):
            # a handler runs here: it calls the library with a random stream of its own
            if busy[0]:
                return
            busy[0] = 1
            st = rng.save()
            q, s.quiet = s.quiet, True
            try:
                nested.append((k, where, ops.outcome(plan['kids'][k], env)))
            finally:
                s.quiet = q
                rng.restore(st)
                busy[0] = 0

        def hook(kind):
            def f(name, **kw):
                for a in armed:
                    if a[0] == kind and not busy[0]:
                        a[1] -= 1
                        if a[1] == 0:
                            enter(a[2], 'user-supplied %s function' % kind)
            return f
        for k in HOOKS:
            models.hooks[k] = hook(k)
        outs = []

        def body():
            t = s.tasks[0]
            for i, op in enumerate(outer):
                armed[:] = [[h, n, k] for j, kind, h, n, k in sc if j == i and kind == 'hook']
                t.events = sorted([(t.steps + st, 'call', lambda t, n, w, k=k: enter(k, w))
                                   for j, kind, st, _, k in sc if j == i and kind == 'line'], key=lambda e: e[0])
                t.ei = 0
                s._arm(t)
                outs.append(ops.outcome(op, env))
                armed[:] = []
                t.events, t.ei, t.next = [], 0, sim.INF
        s.add('caller', body)
        s.run()
        if s.tasks[0].error is not None and not s.violation:
            raise s.tasks[0].error
        return dict(outs=outs, nested=nested, viol=s.violation, steps=s.tasks[0].steps)
    try:
        res = forkrun.fork(child)
    except forkrun.ChildHang:
        o['violations'].append(dict(cls='hang', msg='a call made in the middle of another one blocks for ever'))
        return
    if res['viol']:
        o['violations'].append(dict(cls=res['viol'][0], msg='a call made in the middle of another one: %s: %s' % tuple(
            res['viol'])))
        return
    for k, where, out in res['nested']:
        op = plan['kids'][k]
        common.stat(o, nested=1, compared=1)
        o['nontrivial'] = True
        d, bit = canon.differs(kref[k]['out'], out)
        common.stat(o, bitwise=int(bit))
        if d:
            o['violations'].append(dict(cls='nested-differs', op=op['fn'], msg=(
                '%s, called in the middle of another call, differs from its solo result: %s' % (op['fn'], d))))
        o['sig'] += repr((where, op['fn']))
    for i, (rr, g) in enumerate(zip(ref, res['outs'])):
        d, bit = canon.differs(rr['out'], g)
        common.stat(o, compared=1, bitwise=int(bit))
        if d:
            o['violations'].append(dict(cls='outer-differs', op=outer[i]['fn'], msg=(
                '%s, in the middle of which another call was made, differs from its solo result: %s' % (
                    outer[i]['fn'], d))))
    common.stat(o, steps=res['steps'], schedules=1)


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)

    def with_(l):
        q = copy.deepcopy(p)
        q['schedules'] = [l]
        return q
    p['schedules'] = [common.ddmin_list(p['schedules'][0], lambda l: fails(with_(l)), budget)]
    return p
