"""C03 - caller-owned data and model objects are never modified."""
import copy
import os
import random
import shutil
import tempfile

import numpy as np

from dst import common, forkrun, models, ops, own, seams, sim

ID = 'C03'
PLOTS = True
RULE = ('a run counts as non-trivial if caller-owned objects were inspected while a call was in progress and at least '
        'one call was aborted, had a failed fit or was rejected')
SIZES = dict(quick=340, thorough=15000)
STUBS = ['interrupt delivery', 'solver linear algebra (injected failures)', 'entropy', 'clocks',
         'an observer looking at the caller-owned objects at library source lines']
EXC = dict(kbd=KeyboardInterrupt, mem=MemoryError, exit=SystemExit)


class UserError(Exception):
    pass


def gen(r, tier):
    plan = dict(prop=ID)
    data, mods = ops.gen_world(r, nd=r.choice([1, 2]), nm=r.choice([2, 3]), near=0.5, multi=0.25)
    plan['data'], plan['models'] = data, mods
    plan['ops'] = [ops.gen_op(r, plan, heavy=r.choice([0.2, 0.5]), shared=0.5) for _ in range(r.choice([1, 2, 3]))]
    if r.random() < 0.35:      # several inexpensive calls on few models
        plan['data'], plan['models'] = ops.gen_world(r, nd=1, nm=2, near=0.5, multi=0, special=0.6)
        fns = ops.cheap_fns(r)
        plan['ops'] = [ops.gen_cheap(r, plan, None, fns) for _ in range(r.choice([3, 5]))]
    elif r.random() < 0.12:
        plan['ops'].append(dict(fn='plot', data='d0', seed=1, pseed=r.randrange(1 << 30),
                                kw=dict(output=r.choice(['png', 'html']), include_interval=r.random() < 0.5)))
    plan['fault_seed'] = r.randrange(1 << 30)
    plan['runs'] = None
    return plan


def plot_call(op, a, d):
    from anticipy import forecast_plot
    return forecast_plot.plot_forecast(a['fdf'], path=os.path.join(d, 'p'), width=300, height=200, title='t',
                                       **op['kw'])


def gen_faults(r, trace, steps, k):
    out = []
    for _ in range(k):
        x = r.random()
        if x < 0.55 and trace:
            out.append(['raise', r.choice(sorted(EXC)), r.choice(trace[common.pick_line(r, trace)]) +
                        r.choice([0, 0, 1])])
        elif x < 0.8:
            out.append(['solver', r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 4])])
        else:
            out.append(['user', r.choice(['model', 'init', 'bounds', 'valid', 'dummy']), r.choice([1, 2, 5])])
    return out


def run(plan):
    o = dict(violations=[], stats={}, nontrivial=False, kinds={})
    d = tempfile.mkdtemp(prefix='dst-c03-')

    def child():
        common.setup_child('run')
        led = own.Ledger()
        models.ledger[0] = led
        env = ops.Env(plan).prepare()
        for k, f in env.frames.items():
            led.add('frame ' + k, f)
        armed = {}

        def svd(name, fit, step):
            f = armed.get('solver')
            if f and seams.cand['run'] >= f[0] and step >= f[1]:
                armed['fired'] = 1
                look('in the solver')
                raise np.linalg.LinAlgError('SVD did not converge')
        seams.solver(svd)

        def user(kind):
            def f(name, **kw):
                look('in a %s function' % kind)
                u = armed.get('user')
                if u and u[0] == kind:
                    u[1] -= 1
                    if u[1] == 0:
                        armed['fired'] = 1
                        raise UserError('in %s of %s' % (kind, name))
            return f
        for k in ('model', 'init', 'bounds', 'valid', 'dummy'):
            models.hooks[k] = user(k)
        found, looks, info = [], [0], []

        def look(where):
            if found or s is None or not s.mine():
                return
            looks[0] += 1
            c = led.check()
            if c:
                found.append([c[0], c[1], where])
        lines, alll = set(), set()
        s = None
        for ri in ([[i, None] for i in range(len(plan['ops']))] if plan['runs'] is None else plan['runs']):
            todo = [ri]
            op = plan['ops'][ri[0]]
            while todo and not found:
                i, fault = todo.pop(0)
                armed.clear()
                seams.reset_solver()
                try:
                    a = ops.prep(op, env)
                except Exception:
                    break      # the library rejects the arguments while they are built; nothing to call
                r = random.Random(repr((plan['fault_seed'], i, fault)))
                ev = [(n, 'call', lambda t, n, w: look(w)) for n in sorted(r.sample(range(1, 4000), 30))]
                if fault and fault[0] == 'raise':
                    ev.append((fault[2], 'raise', lambda e=fault[1]: EXC[e]('injected')))
                elif fault and fault[0] == 'solver':
                    armed['solver'] = fault[1:]
                elif fault:
                    armed['user'] = list(fault[1:])
                lines = set()
                s = sim.Sim(cap=3000000, trace=fault is None and plan['runs'] is None, lines=lines,
                            first_seen=lambda t, c, l: look(common.lid(c, l)))

                def body():
                    if op['fn'] == 'plot':
                        from dst import canon
                        try:
                            return ('ok', plot_call(op, a, d))
                        except BaseException as e:
                            return ('err', canon.canon(e))
                    return ops.outcome(op, env, a, catch=BaseException)
                s.add('caller', body, ev)
                s.run()
                if s.tasks[0].error is not None:
                    raise s.tasks[0].error
                out = s.tasks[0].result
                if not found:
                    c = led.check()
                    if c:
                        found.append([c[0], c[1], 'after the call'])
                fired = len(s.injected) + armed.get('fired', 0)
                info.append([i, fault, fired, out[1][1] if out[0] == 'err' else 'value', s.tasks[0].steps])
                alll |= lines
                if fault is None and plan['runs'] is None:
                    for f in gen_faults(r, common.compress(s.trace), s.tasks[0].steps, 2):
                        todo.append([i, f])
                s = None
            if found:
                break
        return dict(found=found, looks=looks[0], info=info, checks=led.checks, owned=len(led.e),
                    lines=[common.lid(c, l) for c, l in alll])
    try:
        res = forkrun.fork(child)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    bad = False
    for i, fault, fired, end, steps in res['info']:
        key = 'op:' + plan['ops'][i]['fn']
        o['kinds'][key] = o['kinds'].get(key, 0) + 1
        if fault and fired:
            key = 'fault:' + ('solver' if fault[0] == 'solver' else fault[0] + ':' + str(fault[1]))
            o['kinds'][key] = o['kinds'].get(key, 0) + 1
            bad = True
        key = 'ended:' + end
        o['kinds'][key] = o['kinds'].get(key, 0) + 1
        bad = bad or end != 'value'
        common.stat(o, steps=steps)
    common.stat(o, looks=res['looks'], object_checks=res['checks'], owned_objects=res['owned'], calls=len(res['info']))
    o['lines'] = res['lines']
    o['sig'] = repr([(i[0], i[1], i[3]) for i in res['info']])
    o['nontrivial'] = bad and res['looks'] > 0
    for label, desc, where in res['found']:
        i, fault = res['info'][-1][0], res['info'][-1][1]
        o['violations'].append(dict(cls='modified', msg='%s was modified by %s (seen %s; fault %s): %s' % (
            label, plan['ops'][i]['fn'], where, fault, desc)))
        plan['runs'] = [[x[0], x[1]] for x in res['info']]
    return o


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)

    def w(rs):
        q = copy.deepcopy(p)
        q['runs'] = rs
        return q
    rs = common.ddmin_list(p['runs'], lambda x: bool(x) and fails(w(x)), budget)
    for k in range(len(rs)):
        if rs[k][1] is not None and budget():
            g = copy.deepcopy(rs)
            g[k][1] = None
            if fails(w(g)):
                rs = g
    return w(rs)
