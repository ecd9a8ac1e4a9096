"""C02 - a call leaves nothing behind that changes later calls."""
import copy
import random

import numpy as np

from dst import canon, common, forkrun, models, ops, rng, seams, sim

ID = 'C02'
RULE = ('a history counts as non-trivial if it contained at least one aborted, fault-injected or rejected call and at '
        'least one later completed call whose result was compared with its pristine result')
SIZES = dict(quick=680, thorough=18000)
STUBS = ['interrupt delivery', 'solver linear algebra (injected failures)', 'entropy', 'clocks']
EXC = dict(kbd=KeyboardInterrupt, mem=MemoryError, exit=SystemExit)


def gen(r, tier):
    plan = dict(prop=ID)
    cheap = r.random() < 0.65
    if cheap:   # many inexpensive calls on few models and near-duplicate series
        data, mods = ops.gen_world(r, nd=r.choice([2, 3]), nm=r.choice([1, 2, 3]), near=0.9, multi=0, special=0.7)
    else:
        data, mods = ops.gen_world(r, nd=r.choice([1, 2, 3]), nm=r.choice([2, 3, 4]), near=0.75)
    plan['data'], plan['models'] = data, mods
    if cheap:
        fns = ops.cheap_fns(r)
        if r.random() < 0.1:   # automatic detection of the composition
            fns = ['is_mult'] + r.sample(['freq', 'normalize', 'interp', 'eval', 'extrap'], 1)
            for k in data:
                data[k] = dict(data[k], freq='D', n=90, mult=r.random() < 0.8, level=r.choice([10, 100]),
                               slope=r.choice([1, 5]), noise=r.choice([0.3, 1]))
                data[k].pop('x0', None)
        l = [ops.gen_cheap(r, plan, None, fns) for _ in range(r.choice([2, 3]))]
        for _ in range(r.choice([3, 5, 7])):
            o = copy.deepcopy(r.choice(l))
            what = r.choice(['data', 'data', 'model', 'pseed', 'lists', 'lists'])
            if what == 'data':
                o['data'] = r.choice(sorted(data))
            elif what == 'model' and 'model' in o:
                o['model'] = ['ref', r.choice(sorted(mods))]
            elif what == 'pseed':
                o['pseed'] = r.choice([1, 2, 3])
            elif 'weekly' in o:
                ops.other_lists(r, o)
            elif 'mult' in o:
                o['mult'] = not o['mult']
            else:
                o = dict(ops.gen_cheap(r, plan, None, [o['fn']]), data=o['data'])
            l.append(o)
        plan.update(ops=l, hist_seed=r.randrange(1 << 30), histories=None, cheap=True)
        return plan
    n = r.choice([3, 4, 5, 6])
    l = []
    heavy = r.choice([0.1, 0.3, 0.6])
    for i in range(n):
        if i and r.random() < 0.5:
            # a near-duplicate of an earlier call: one aspect changed
            o = copy.deepcopy(r.choice(l))
            what = r.choice(['data', 'seed', 'model', 'kw', 'data'])
            if what == 'data':
                o['data'] = r.choice(sorted(d for d in data if d != 'dm')) if o['data'] != 'dm' else 'dm'
            elif what == 'seed':
                o['seed'] = r.randrange(1 << 30)
            elif what == 'model' and 'model' in o:
                o['model'] = ['ref', r.choice(sorted(mods))]
            elif what == 'model' and o.get('trend'):
                o['trend'][0] = ['ref', r.choice(sorted(mods))]
            elif 'use_cache' in o.get('kw', {}):
                o['kw']['use_cache'] = not o['kw']['use_cache']
            elif o['fn'] == 'run_forecast':
                o['kw']['season_add_mult'] = r.choice(['add', 'mult', 'both', 'auto'])
            l.append(o)
        else:
            l.append(ops.gen_op(r, plan, heavy=heavy, shared=0.8))
    plan['ops'] = l
    plan['hist_seed'] = r.randrange(1 << 30)
    plan['histories'] = None
    return plan


def gen_history(r, plan, ref):
    n = len(plan['ops'])
    h = []
    for k in range(r.choice([4, 8, 12]) if plan.get('cheap') else r.choice([3, 4, 6, 8])):
        i = r.randrange(n)
        x = r.random()
        ab = None
        tr = ref[i]['trace']
        if x < 0.3 and tr:
            ln = common.pick_line(r, tr)
            ab = ['raise', r.choice(sorted(EXC)), r.choice(tr[ln]) + r.choice([0, 0, 1])]
        elif x < 0.4:
            ab = ['raise', r.choice(sorted(EXC)), r.randint(1, max(1, ref[i]['steps']))]
        elif x < 0.5:
            ab = ['solver', r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 3, 5])]
        elif x < 0.58:
            ab = ['user', r.choice(['model', 'init', 'bounds', 'valid', 'dummy']), r.choice([1, 1, 2, 5])]
        h.append([i, ab])
    # the last calls complete: every operation touched before is checked again
    seen = []
    for i, _ in h:
        if i not in seen:
            seen.append(i)
    r.shuffle(seen)
    return h + [[i, None] for i in seen]


class UserError(Exception):
    pass


def run(plan):
    o = dict(violations=[], stats={}, nontrivial=False, kinds={})
    memo, ref = {}, []
    for op in plan['ops']:
        k = repr(sorted(op.items(), key=str))
        if k not in memo:
            memo[k] = common.solo(plan, op, want_trace=True)
        ref.append(memo[k])
        c = 'op:' + op['fn']
        o['kinds'][c] = o['kinds'].get(c, 0) + 1
    o['lines'] = [l for s in ref for l in s['lines']]
    o['sig'] = ''
    if plan.get('histories') is not None:
        hs = plan['histories']
    else:
        r = random.Random(plan['hist_seed'])
        hs = [gen_history(r, plan, ref) for _ in range(3)]
    for h in hs:
        one(plan, ref, h, o)
        if o['violations']:
            plan['histories'] = [h]
            break
    return o


def one(plan, ref, hist, o):
    cap = 4 * sum(ref[i]['steps'] for i, _ in hist) + 400000

    def child():
        common.setup_child('run')
        env = ops.Env(plan).prepare()
        armed = {}

        def svd(name, fit, step):
            f = armed.get('solver')
            if f and seams.cand['run'] >= f[0] and step >= f[1]:
                armed['fired'] = armed.get('fired', 0) + 1
                raise np.linalg.LinAlgError('SVD did not converge')
        if any(a and a[0] == 'solver' for _, a in hist):
            seams.solver(svd)

        def user(kind):
            def f(name, **kw):
                u = armed.get('user')
                if u and u[0] == kind:
                    u[1] -= 1
                    if u[1] == 0:
                        armed['fired'] = armed.get('fired', 0) + 1
                        raise UserError('in %s of %s' % (kind, name))
            return f
        for k in ('model', 'init', 'bounds', 'valid', 'dummy'):
            models.hooks[k] = user(k)
        s = sim.Sim(cap=cap)
        outs, info = [], []

        def body():
            t = s.tasks[0]
            for i, ab in hist:
                armed.clear()
                t.events, t.ei, t.next = [], 0, sim.INF
                if ab is None:
                    outs.append(ops.outcome(plan['ops'][i], env))
                    info.append(None)
                    continue
                n0 = len(s.injected)
                if ab[0] == 'raise':
                    t.events = [(t.steps + ab[2], 'raise', lambda e=ab[1]: EXC[e]('injected'))]
                    s._arm(t)
                elif ab[0] == 'solver':
                    seams.reset_solver()
                    armed['solver'] = ab[1:]
                else:
                    armed['user'] = list(ab[1:])
                out = ops.outcome(plan['ops'][i], env, catch=BaseException)
                fired = len(s.injected) - n0 + armed.get('fired', 0)
                armed.clear()
                t.events, t.ei, t.next = [], 0, sim.INF
                outs.append(None if fired else out)
                info.append([ab[0] + ':' + str(ab[1]) if ab[0] != 'solver' else 'solver', fired,
                             out[1][1] if out[0] == 'err' else 'value'])
        s.add('caller', body)
        s.run()
        if s.tasks[0].error is not None:
            raise s.tasks[0].error
        return dict(outs=outs, info=info, viol=s.violation, steps=s.tasks[0].steps,
                    where=[w for *_, w in s.injected])
    try:
        res = forkrun.fork(child)
    except forkrun.ChildHang:
        o['violations'].append(dict(cls='hang', msg='a call after this history blocks for ever'))
        return
    if res['viol']:
        o['violations'].append(dict(cls=res['viol'][0], msg='%s: %s' % tuple(res['viol'])))
        return
    dirty = after = False
    for k, ((i, ab), got, inf) in enumerate(zip(hist, res['outs'], res['info'])):
        if inf is not None and inf[1]:
            dirty = True
            key = 'fault:' + inf[0]
            o['kinds'][key] = o['kinds'].get(key, 0) + 1
            key = 'ended:' + inf[2]
            o['kinds'][key] = o['kinds'].get(key, 0) + 1
            continue
        if got is None:
            continue
        if got[0] == 'err':
            dirty = True
        elif dirty:
            after = True
        d, bit = canon.differs(ref[i]['out'], got)
        common.stat(o, compared=1, bitwise=int(bit))
        if d:
            fn = plan['ops'][i]['fn']
            prev = [(j, a[0] if a else 'completed') for j, a in hist[:k]]
            o['violations'].append(dict(cls='differs', msg='call %d (%s) after history %s differs from the same call in '
                                        'a fresh process: %s' % (k, fn, prev, d)))
            return
    common.stat(o, steps=res['steps'], histories=1, calls=len(hist))
    o['nontrivial'] = o['nontrivial'] or (dirty and after)
    o['sig'] += repr(hist) + repr(res['where'])


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)

    def with_h(h):
        q = copy.deepcopy(p)
        q['histories'] = [h]
        return q
    h = common.ddmin_list(p['histories'][0], lambda x: bool(x) and fails(with_h(x)), budget)
    for k in range(len(h)):
        if h[k][1] is not None and budget():
            g = copy.deepcopy(h)
            g[k][1] = None
            if fails(with_h(g)):
                h = g
    p = with_h(h)
    used = sorted({i for i, _ in h})
    q = copy.deepcopy(p)
    q['ops'] = [p['ops'][i] for i in used]
    q['histories'] = [[[used.index(i), a] for i, a in h]]
    if budget() and fails(q):
        p = q
    return p
