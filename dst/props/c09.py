"""C09 - the system clock affects nothing but reported durations."""
import copy
import random

import numpy as np

from dst import canon, common, data as D, forkrun, models as M, ops, rng, seams, shim, sim

ID = 'C09'
RULE = ('a run counts as non-trivial if the clock was really stepped, set or stalled while the call ran and the call '
        'returned a value that was compared')
SIZES = dict(quick=260, thorough=12000)
STUBS = ['clocks', 'genuine delays (virtual time passing inside model functions and the solver)', 'entropy']
DAY = 86400


def gen(r, tier):
    plan = dict(prop=ID)
    plan['data'], plan['models'] = ops.gen_world(r, nd=1, nm=2, multi=0.25)
    d = r.choice(sorted(plan['data']))
    ds = plan['data'][d]
    if 'sources' in ds:
        ds = next(iter(ds['sources'].values()))

    def user(k='u0'):
        m = ['user', k, dict(shape=r.choice(['line', 'wave', 'const']))]
        if r.random() < 0.3:
            return [r.choice(['add', 'mul']), m, M.gen_season(r, ds)]
        return m
    k = r.random()
    if k < 0.45 and d != 'dm':
        m = user()
        if r.random() < 0.3:
            m = ['fixall', ['user', 'u0', dict(shape='line')], [0.5, 3.0]]
        elif r.random() < 0.2:
            m = M.gen_model(r, ds)
        op = dict(fn='fit', data=d, seed=r.randrange(1 << 30), model=m, kw=dict(use_cache=r.random() < 0.7))
    elif k < 0.85:
        op = ops.gen_run(r, plan, d, ds)
        op['kw'].update(simplify_output=False, include_all_fits=True)
        op['trend'] = [user('u%d' % i) for i in range(r.choice([1, 2]))] + \
            ([['std', 'linear']] if r.random() < 0.5 else [])
        op.setdefault('season', [])
        if op['kw']['season_add_mult'] == 'auto':   # the fit behind the detection is not reported
            op['kw']['season_add_mult'] = 'add'
    else:
        op = ops.gen_op(r, plan, heavy=0.5)
        if op.get('kw', {}).get('season_add_mult') == 'auto' and op['fn'] == 'run_forecast':
            op['kw']['simplify_output'] = True
    plan['op'] = op
    plan['variants'] = [gen_variant(r, ds) for _ in range(3)]
    return plan


def gen_variant(r, ds):
    v = dict(wall=r.choice([0, 1, 10 ** 9, 1614600000, 2147483600, 4102444800, 16725225600, r.randrange(4 * 10 ** 9)]),
             delay=r.choice([None, None, 1, 50, 5000, 3600000, DAY * 1000]), dseed=r.randrange(1 << 30),
             stall=r.choice([None, None, [r.randint(1, 4), r.choice([1000, 3600000])]]),
             tick=r.choice([0, 0, 1000]))
    jumps = []
    for _ in range(r.choice([0, 1, 2, 4])):
        jumps.append([r.choice(['read', 'read', 'frac', 'frac', 'eval', 'eval']), r.random(), r.randint(1, 8),
                      r.choice([-1, 1]) * r.choice([0.001, 1, 3600, DAY, 400 * DAY, 20000 * DAY])])
    v['jumps'] = jumps
    if r.random() < 0.45:
        v['wall'] = ops.moments(ds, r)
    return v


def execute(plan, v, steps=0):
    op = plan['op']

    def child():
        common.setup_child('run')
        seams.name_models()
        L = shim.lib()
        env = ops.Env(plan).prepare()
        a = ops.prep(op, env)
        rng.seed(op['seed'])
        acc, evals, solver, first = {}, [0], {}, {}
        insolver = [False]
        t0 = [0]

        def on_model(name, size, count):
            evals[0] += 1
            c = seams.cand['name']
            if v is None:
                return
            for kind, fr, n, s in v['jumps']:
                if kind == 'eval' and evals[0] == n:
                    L.dst_step_wall(int(s * 10 ** 9))
                    done.append(kind)
            if v['delay']:
                ns = int(v['delay'] * 10 ** 6 * ((v['dseed'] + 7919 * evals[0]) % 5))
                spend(c, ns)

        def spend(c, ns):
            L.dst_advance(ns)
            acc[c] = acc.get(c, 0) + ns
            if insolver[0]:
                solver[c] = solver.get(c, 0) + ns

        def svd(name, fit, step):
            if v and v['stall'] and step == v['stall'][0]:
                spend(name, v['stall'][1] * 10 ** 6)
                done.append('stall')
        done = []
        seams.solver(svd)
        seams.on_solver[0] = lambda on: insolver.__setitem__(0, on)
        M.hooks['model'] = on_model
        ev = []
        if v is not None:
            L.dst_clock(1, 10 ** 15, v['wall'] * 10 ** 9 - 10 ** 15, v['tick'])
            for kind, fr, n, s in v['jumps']:
                if kind == 'read':
                    L.dst_jump_at_read(n, int(s * 10 ** 9))
                elif kind == 'frac':
                    ev.append((1 + int(fr * steps), 'call',
                               lambda *_, s=s: (L.dst_step_wall(int(s * 10 ** 9)), done.append('frac'))))
        lines = set()
        s = sim.Sim(lines=lines)
        t0[0] = L.dst_mono()

        def body():
            try:
                x = ops.call(op, env, a)
                el = L.dst_mono() - t0[0]
                meta = x.get('metadata') if isinstance(x, dict) else None
                ft = None
                if meta is not None and 'fit_time' in meta:
                    ft = [(str(n), float(z)) for n, z in zip(meta.model, meta.fit_time)]
                return ('ok', canon.canon(x)), ft, el
            except Exception as e:
                return ('err', canon.canon(e)), None, L.dst_mono() - t0[0]
        s.add('caller', body, ev)
        s.run()
        if s.tasks[0].error is not None:
            raise s.tasks[0].error
        out, ft, el = s.tasks[0].result
        return dict(out=out, ft=ft, elapsed=el / 1e9, acc={k: z / 1e9 for k, z in acc.items()},
                    solver={k: z / 1e9 for k, z in solver.items()}, steps=s.tasks[0].steps, done=done,
                    reads=L.dst_reads(), lines=[common.lid(c, l) for c, l in lines])
    return forkrun.fork(child)


def run(plan):
    o = dict(violations=[], stats={}, nontrivial=False, kinds={}, sig=repr(plan['variants']), simtime=0.0)
    ref = execute(plan, None)
    o['lines'] = ref['lines']
    for k in ('op:' + plan['op']['fn'], common.kinds_of(ref['out'])):
        o['kinds'][k] = 1
    for v in plan['variants']:
        got = execute(plan, v, ref['steps'])
        o['simtime'] += got['elapsed']
        common.stat(o, clock_reads=got['reads'], steps=got['steps'])
        for k in got['done'] + (['delay'] if v['delay'] and got['acc'] else []) + ['set-clock']:
            o['kinds']['fault:' + k] = o['kinds'].get('fault:' + k, 0) + 1
        n = sum(1 for j in v['jumps'] if j[0] == 'read' and j[2] <= got['reads'])
        if n:
            o['kinds']['fault:jump-at-read'] = o['kinds'].get('fault:jump-at-read', 0) + n
        b = judge(plan, ref, v, got, o)
        if b:
            o['violations'].append(dict(cls=b[0], msg=b[1]))
            plan['variants'] = [v]
            break
        if got['out'][0] == 'ok':
            o['nontrivial'] = True
    return o


def judge(plan, ref, v, got, o):
    d = canon.diff(ref['out'], got['out'], ignore=canon.IGNORE_COLS)
    if d:
        return 'differs', 'another clock changes the result of %s: %s' % (plan['op']['fn'], d)
    if not got['ft']:
        return None
    slack = 2e-6 + got['reads'] * v['tick'] / 1e9 + 1e-9 * got['elapsed']
    fits = {}
    for n, t in got['ft']:
        if not np.isfinite(t) or t < 0:
            return 'negative', 'model %s: reported fit duration %r s' % (n, t)
        if t > got['elapsed'] + slack:
            return 'too-long', 'model %s: reported fit duration %r s, but the whole call took %r s' % (
                n, t, got['elapsed'])
        fits.setdefault(n, []).append(t)
    if sum(t for _, t in got['ft']) > got['elapsed'] + slack * len(got['ft']):
        return 'too-long', 'reported fit durations add up to more than the call took'
    for n, ts in fits.items():
        common.stat(o, durations=len(ts))
        up, low = got['acc'].get(n, 0.0), got['solver'].get(n, 0.0)
        if plan['op']['fn'] == 'fit':
            low = up
        if sum(ts) < low - slack * len(ts):
            return 'too-short', 'model %s: reported fit duration %r s, but its fit really took %r s' % (n, sum(ts), low)
        if sum(ts) > up + slack * len(ts):
            return 'too-long', 'model %s: reported fit duration %r s, but its fit really took at most %r s' % (
                n, sum(ts), up)
    return None


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)

    def tryp(mut):
        nonlocal p
        q = copy.deepcopy(p)
        if mut(q) is False or not budget():
            return
        if fails(q):
            p = q
    for i in reversed(range(len(p['variants'][0]['jumps']))):
        tryp(lambda q: q['variants'][0]['jumps'].pop(i) and None)
    for k, x in (('wall', 1614600000), ('delay', None), ('stall', None), ('tick', 0)):
        tryp(lambda q: q['variants'][0].__setitem__(k, x))
    return p
