"""C19 - a long-running process does not accumulate memory."""
import copy
import random

import numpy as np
import pandas as pd

from dst import common, forkrun, models, ops, rng, seams, sim

ID = 'C19'
RULE = ('a run counts as non-trivial if every operation of a round completed or failed as planned in at least 8 rounds, and at '
        'least one caller-owned object per round was watched')
SIZES = dict(quick=110, thorough=4000)
STUBS = ['interrupt delivery', 'solver linear algebra (injected failures)', 'entropy', 'clocks']
EXC = dict(kbd=KeyboardInterrupt, mem=MemoryError, exit=SystemExit)
FIRST, MIN, FULL = 24, 110, 320
GROWTH = 1.5               # memory blocks per round, sustained


def flat(data):
    return [s for d in data.values() for s in (d['sources'].values() if 'sources' in d else [d])]


def gen(r, tier):
    plan = dict(prop=ID)
    data, mods = ops.gen_world(r, nd=r.choice([1, 2]), nm=r.choice([1, 2, 3]), multi=0.15, special=0.7)
    for s in flat(data):
        s['n'] = min(s['n'], 30 if s['freq'] != 'D' or not s.get('mult') else 90)
        for k in ('nan', 'w0', 'gaps'):
            if k in s:
                s[k] = [i for i in s[k] if i < s['n'] - 2]
    plan['data'], plan['models'] = data, mods
    l = []
    fns = ops.cheap_fns(r)
    for _ in range(r.choice([1, 2, 2, 3])):
        x = r.random()
        if x < 0.7:
            o = ops.gen_cheap(r, plan, None, fns)
        elif x < 0.85:
            o = ops.gen_op(r, plan, heavy=0, shared=0.8)
        else:
            o = dict(fn='run_forecast', data='d0', seed=r.randrange(1 << 30), trend=[['ref', r.choice(sorted(mods))]],
                     season=[], kw=dict(extrapolate_years=dict(D=0.1, H=0.01).get(data['d0']['freq'], 1),
                                        season_add_mult='add', simplify_output=r.random() < 0.5))
            if r.random() < 0.3:
                o['kw']['source_id'] = 'sA'
            if 'dm' in data and r.random() < 0.5:
                o['data'] = 'dm'
        l.append(o)
    faults = []
    for i in range(len(l)):
        x = r.random()
        if x < 0.3:
            faults.append([i, 'raise', r.choice(sorted(EXC)), r.random()])
        elif x < 0.4:
            faults.append([i, 'solver', 1, r.choice([1, 2])])
        elif x < 0.5:
            faults.append([i, 'user', r.choice(['model', 'init', 'valid', 'dummy']), r.choice([1, 2])])
    plan.update(ops=l, faults=faults, shift=r.choice([0, 1, 7]), grow=r.choice([0, 0, 1]), rename=r.random() < 0.4)
    return plan


def renamed(spec, i):
    """The same model description under a new name (for named models)."""
    if not isinstance(spec, list) or not spec:
        return spec
    if spec[0] in ('dlist', 'ddates', 'dfn', 'dhol', 'cal', 'datelist', 'vars', 'user') and isinstance(spec[1], str):
        return [spec[0], '%s_%d' % (spec[1], i)] + spec[2:]
    return [renamed(x, i) if isinstance(x, list) else x for x in spec]


def variant(plan, i):
    """The plan of round i: the same calls on new data, through new model objects."""
    p = copy.deepcopy(dict(data=plan['data'], models=plan['models'], ops=plan['ops']))
    for s in flat(p['data']):
        s['seed'] = (s['seed'] + i) % (1 << 30)
        if s['freq'] == 'x':
            s['x0'] = s.get('x0', 0) + i * plan['shift']
        else:
            s['start'] = str((pd.Timestamp(s['start']) + pd.Timedelta(days=i * plan['shift'])).date())
        s['n'] += (i % 5) * plan['grow']
    for o in p['ops']:
        if 'pseed' in o:
            o['pseed'] = (o['pseed'] + i) % (1 << 30)
    if plan['rename']:
        p['models'] = {k: renamed(m, i) for k, m in p['models'].items()}
        for d in p['data'].values():
            if 'sources' in d:
                d['sources'] = {'%s_%d' % (k, i): s for k, s in d['sources'].items()}
        for o in p['ops']:
            for k in ('trend', 'season', 'naive', 'calendar', 'yearly', 'weekly', 'spec', 'model', 'model2'):
                if isinstance(o.get(k), list) and o[k] and o[k][0] != 'ref':
                    o[k] = renamed(o[k], i)
            if 'source_id' in o.get('kw', {}):
                o['kw']['source_id'] += '_%d' % i
            if o['fn'] in ('fit', 'run_forecast') and o.get('source'):
                o['kw']['source'] = '%s_%d' % (o['source'], i)
    return p


class UserError(Exception):
    pass


def run(plan):
    o = dict(violations=[], stats={}, nontrivial=False, kinds={}, lines=[])

    def child():
        import array
        import gc
        import sys
        import weakref
        common.setup_child('run')
        armed = {}

        def svd(name, fit, step):
            f = armed.get('solver')
            if f and seams.cand['run'] >= f[0] and step >= f[1]:
                raise np.linalg.LinAlgError('SVD did not converge')

        def user(kind):
            def f(name, **kw):
                u = armed.get('user')
                if u and u[0] == kind:
                    u[1] -= 1
                    if u[1] == 0:
                        raise UserError('in %s' % kind)
            return f
        if any(f[1] == 'solver' for f in plan['faults']):
            seams.solver(svd)
        for k in ('model', 'init', 'bounds', 'valid', 'dummy'):
            models.hooks[k] = user(k)
        lines, steps, endings = set(), {}, {}
        s = sim.Sim(lines=lines, cap=1 << 60)
        mem, alive = array.array('q', [0] * (FULL + 1)), {}
        done = [0]
        sizes = [0]

        class Ledger:
            def __init__(self):
                self.refs = []

            def add(self, label, obj):
                try:
                    self.refs.append((label, weakref.ref(obj)))
                except TypeError:
                    pass

        def one_round(i, p, led):
            env = ops.Env(p).prepare()
            for k, v in list(env.frames.items()) + list(env.models.items()):
                led.add('shared ' + k, v)
            t = s.tasks[0]
            for j, op in enumerate(p['ops']):
                armed.clear()
                t.events, t.ei, t.next = [], 0, sim.INF
                for f in plan['faults']:
                    if f[0] != j or (f[1] == 'raise' and j not in steps):
                        continue
                    if f[1] == 'raise':
                        at = t.steps + 1 + int(f[3] * steps[j])
                        t.events = [(at, 'raise', lambda e=f[2]: EXC[e]('injected'))]
                        s._arm(t)
                    elif f[1] == 'solver':
                        seams.reset_solver()
                        armed['solver'] = f[2:]
                    else:
                        armed['user'] = list(f[2:])
                n0 = t.steps
                rng.seed(op.get('seed', 1) + i)
                try:
                    a = ops.prep(op, env)
                    v = ops.call(op, env, a)
                    for x in (v if isinstance(v, (tuple, list)) else v.values() if isinstance(v, dict) else [v]):
                        if isinstance(x, (pd.DataFrame, pd.Series, np.ndarray)) or hasattr(x, 'f_model'):
                            led.add('result', x)
                    e = 'value'
                except BaseException as x:
                    if isinstance(x, sim.SimAbort):
                        raise
                    e = type(x).__name__
                t.events, t.ei, t.next = [], 0, sim.INF
                armed.clear()
                if i == 0:
                    steps[j] = t.steps - n0
                endings[e] = endings.get(e, 0) + 1

        def std(m):
            from anticipy import forecast_models as fm
            return any(v is m for v in vars(fm).values())

        def rounds(n):
            for i in range(done[0], n):
                p = variant(plan, i)
                led = Ledger()
                models.ledger[0] = led
                one_round(i, p, led)
                models.ledger[0] = None
                models.counter.n.clear()
                del s.injected[:]
                del p
                gc.collect()
                sizes[0] = max(sizes[0], len(led.refs))
                left = [(l, r) for l, r in led.refs if r() is not None and not std(r())]
                if left:
                    alive[i] = left
                del led, left
                gc.collect()
                done[0] = i + 1
                mem[i] = sys.getallocatedblocks()

        def living():
            """Rounds whose objects are still alive now."""
            return [sorted({l for l, r in alive.get(i, ()) if r() is not None and not std(r())}) for i in range(done[0])]

        def suspicious():
            l = living()
            if sum(1 for x in l[:-1] if x) >= 4:
                return True
            return mem[FIRST - 1] - mem[FIRST - 13] > 6

        def confirmed():
            l = living()
            k = sum(1 for x in l if x)
            if k >= len(l) - 20:
                return 'objects', '%d of %d rounds of calls left objects of the caller referenced: %s' % (
                    k, len(l), ', '.join(next(x for x in l if x)[:4]))
            if len(l) < FULL:
                return None
            q = [mem[j] for j in range(MIN - 1, FULL, 50)]
            d = [b - a for a, b in zip(q, q[1:])]
            if min(d) > 50 * GROWTH:
                return 'memory', 'memory in use grew by %s blocks from 50 rounds of calls to the next' % (
                    d,)
            return None

        def body():
            gc.collect()
            gc.freeze()
            rounds(FIRST)
            if not suspicious():
                return None
            # a cache of limited size grows, too, until it is full: look on
            while done[0] < FULL:
                rounds(min(MIN if done[0] < MIN else done[0] + 50, FULL))
                k = done[0]
                if mem[k - 1] - mem[k - 50] < 50 * GROWTH and sum(1 for x in living()[-50:] if x) < 40:
                    return None
                if k >= 210 and sum(1 for x in living() if x) >= k - 20:
                    break
            return confirmed()
        s.add('caller', body)
        s.run()
        if s.tasks[0].error is not None:
            raise s.tasks[0].error
        return dict(res=s.tasks[0].result, rounds=done[0], watched=sizes[0], endings=endings,
                    growth=[mem[i] - mem[i - 1] for i in range(1, min(done[0], 14))], lines=[common.lid(c, l) for c, l in lines],
                    steps=s.tasks[0].steps)
    try:
        res = forkrun.fork(child, timeout=1500)
    except forkrun.ChildHang:
        o['violations'].append(dict(cls='hang', msg='a call blocked for ever'))
        return o
    o['lines'] = res['lines']
    o['nontrivial'] = res['rounds'] >= 8 and res['watched'] > 0
    for op in plan['ops']:
        o['kinds']['op:' + op['fn']] = o['kinds'].get('op:' + op['fn'], 0) + 1
    for f in plan['faults']:
        k = 'fault:%s' % f[1]
        o['kinds'][k] = o['kinds'].get(k, 0) + 1
    for k, v in res['endings'].items():
        o['kinds']['ended:' + k] = o['kinds'].get('ended:' + k, 0) + v
    common.stat(o, rounds=res['rounds'], steps=res['steps'], confirmed_bounded=int(res['rounds'] > FIRST and not res['res']))
    o['growth'] = res['growth']
    o['sig'] = repr([op['fn'] for op in plan['ops']]) + repr(plan['faults'])
    if res['res']:
        o['violations'].append(dict(cls='kept-' + res['res'][0], msg=res['res'][1]))
    return o


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)
    for i in reversed(range(len(p['faults']))):
        q = copy.deepcopy(p)
        del q['faults'][i]
        if budget() and fails(q):
            p = q
    for i in reversed(range(len(p['ops']))):
        if len(p['ops']) > 1 and budget():
            q = copy.deepcopy(p)
            del q['ops'][i]
            q['faults'] = [[f[0] - (f[0] > i)] + f[1:] for f in q['faults'] if f[0] != i]
            if fails(q):
                p = q
    return p
