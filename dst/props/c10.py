"""C10 - interrupts and out-of-memory errors always reach the caller."""
import copy
import os
import random
import shutil
import sys
import tempfile

from dst import common, forkrun, models as M, ops, rng, seams, sim

ID = 'C10'
PLOTS = True
RULE = ('a run counts as non-trivial if at least one injected error really struck while a library call was in '
        'progress (each struck call is one evaluation of the property)')
SIZES = dict(quick=330, thorough=15000)
STUBS = ['interrupt delivery (raised at library source lines and inside call-outs)', 'solver linear algebra (raises '
         'the injected error)', 'file opening (raises the injected error)', 'entropy', 'clocks', 'web browser']


class Interrupt(KeyboardInterrupt):
    """What a signal handler of the caller may raise."""


class Stop(SystemExit):
    pass


class Limit(MemoryError):
    pass


EXC = dict(kbd=KeyboardInterrupt, mem=MemoryError, exit=SystemExit, kbd2=Interrupt, exit2=Stop, mem2=Limit)
CALLOUTS = ('model', 'init', 'bounds', 'valid', 'dummy')


def gen(r, tier):
    plan = dict(prop=ID)
    data, mods = ops.gen_world(r, nd=1, nm=r.choice([1, 2]), near=0.3, multi=0.2)
    plan['data'], plan['models'] = data, mods
    k = r.random()
    ds = data['d0']
    if k < 0.12:
        plan['op'] = dict(fn='plot', data='d0', seed=1, pseed=r.randrange(1 << 30),
                          kw=dict(output=r.choice(['png', 'html', 'png']), include_interval=r.random() < 0.5),
                          sub=r.choice(['', 'new', 'new/er']), open=r.random() < 0.3)
    elif k < 0.2:
        plan['op'] = dict(fn='app', data='d0', seed=1, kw=dict(output_format=r.choice(['png', 'html'])))
    elif k < 0.4:
        plan['op'] = dict(fn='build', data='d0', seed=1, pseed=3, spec=r.choice(
            [M.gen_dummy(r, ds), M.gen_model(r, ds), ['add', M.gen_trend(r, ds), M.gen_dummy(r, ds)]]))
    elif k < 0.6:   # caller-supplied functions everywhere
        u = ['user', 'u0', dict(shape=r.choice(['line', 'wave', 'const']), eqbounds=r.random() < 0.3,
                                valid=r.choice(['true', 'nothing', 'true', None]))]
        if r.random() < 0.5 and ds['freq'] != 'x':
            u = [r.choice(['add', 'mul']), u, ['dfn', 'dm', r.choice(sorted(M.DFN))]]
        if r.random() < 0.6:
            plan['op'] = dict(fn=r.choice(['fit', 'fit', 'validate', 'simplify', 'ols', 'init_params', 'init_cache']),
                              data='d0', seed=r.randrange(1 << 30), model=u, pseed=3)
            if plan['op']['fn'] in ('fit', 'ols'):
                plan['op']['kw'] = dict(use_cache=r.random() < 0.6)
        else:
            plan['op'] = ops.gen_run(r, plan, 'd0', ds)
            plan['op'].update(trend=[u, ['std', 'linear']][:r.choice([1, 2])], season=[])
    else:
        plan['op'] = ops.gen_op(r, plan, heavy=0.35)
    plan['fault_seed'] = r.randrange(1 << 30)
    plan['nf'] = 8
    plan['faults'] = None
    return plan


def do(op, env, d):
    """Preparation (the caller building models through the library) and the call itself."""
    if op['fn'] == 'app':
        from anticipy import app
        return app.run_forecast_app(os.path.join(d, 'in.csv'), os.path.join(d, 'out', ''), forecast_years=0.1,
                                    **op['kw'])
    a = ops.prep(op, env)
    if op['fn'] == 'plot':
        from anticipy import forecast_plot
        return forecast_plot.plot_forecast(a['fdf'], path=os.path.join(d, op['sub'], 'p'), width=200, height=150,
                                           title='t', auto_open=op['open'], **op['kw'])
    return ops.call(op, env, a)


def gen_faults(r, trace, counts, k):
    out = []
    co = [c for c in sorted(counts) if counts[c]]
    for _ in range(k):
        e = r.choice(sorted(EXC))
        if co and r.random() < 0.45:
            c = r.choice(co)
            out.append([c, r.choice([1, 1, counts[c], r.randint(1, counts[c])]), e])
        elif trace:
            out.append(['line', r.choice(trace[common.pick_line(r, trace)]), e])
    return out


def run(plan):
    o = dict(violations=[], stats={}, nontrivial=False, kinds={})
    d = tempfile.mkdtemp(prefix='dst-c10-')
    op = plan['op']

    def child():
        common.setup_child('run')
        seams.name_models()
        os.chdir(d)
        env = ops.Env(plan).prepare()
        if op['fn'] == 'app':
            from dst import boot
            import logging
            boot.load_app()
            env.frames['d0'].to_csv(os.path.join(d, 'in.csv'), index=False)
            os.mkdir(os.path.join(d, 'out'))
        counts, armed, struck = {}, {}, []
        inside = [0]

        def hit(kind, where):
            if not inside[0] or s is None or not s.mine():
                return
            counts[kind] = counts.get(kind, 0) + 1
            if armed.get('kind') == kind and counts[kind] == armed['n'] and sim.may_raise():
                armed['kind'] = None
                e = EXC[armed['exc']]('injected')
                struck.append((e, where))
                raise e
        for c in CALLOUTS:
            M.hooks[c] = lambda name, c=c, **kw: hit(c, 'a %s function of the caller' % c)
        seams.solver(lambda name, fit, step: hit('solver', 'the solver, candidate %s step %d' % (name, step)))
        if op['fn'] in ('plot', 'app'):
            def audit(ev, args):
                if inside[0] and ev in ('open', 'os.mkdir', 'os.rename', 'os.remove') and args and \
                        isinstance(args[0], str) and os.path.abspath(args[0]).startswith(d):
                    hit('io', '%s of %s' % (ev, os.path.basename(args[0])))
            sys.addaudithook(audit)
        s = None
        alll, info, found, steps = set(), [], [], [0]

        def once(fault, trace=False):
            nonlocal s
            armed.clear()
            counts.clear()
            del struck[:]
            seams.reset_solver()
            for f in os.listdir(d):
                if f not in ('in.csv', 'out'):
                    p = os.path.join(d, f)
                    shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
            rng.seed(op['seed'])
            ev = []
            if fault and fault[0] == 'line':
                def make(e=fault[2]):
                    x = EXC[e]('injected')
                    struck.append((x, 'a line'))
                    return x
                ev.append((fault[1], 'raise', make))
            elif fault:
                armed.update(kind=fault[0], n=fault[1], exc=fault[2])
            lines = set()
            s = sim.Sim(cap=3000000, trace=trace, lines=lines)

            def body():
                try:
                    inside[0] = 1
                    do(op, env, d)
                    return None
                except BaseException as e:
                    return e
                finally:
                    inside[0] = 0
            s.add('caller', body, ev)
            s.run()
            t = s.tasks[0]
            alll.update(lines)
            steps[0] += t.steps
            if t.error is not None:
                raise t.error
            viol = s.violation
            where = s.injected[0][3] if s.injected else None
            tr = common.compress(s.trace) if trace else None
            c = dict(counts)
            s = None
            return t.result, where, viol, tr, c
        faults = plan['faults']
        if faults is None:
            e, _, _, tr, c = once(None, True)
            info.append([None, 0, type(e).__name__])
            faults = gen_faults(random.Random(plan['fault_seed']), tr, c, plan['nf'])
        for f in faults:
            e, where, viol, _, _ = once(f)
            info.append([f, len(struck), type(e).__name__])
            if not struck:
                continue
            x, w = struck[0]
            w = where or w
            if viol:
                found.append([f, 'hung', '%s raised in %s: the call does not end' % (type(x).__name__, w)])
            elif e is None:
                found.append([f, 'swallowed', '%s raised in %s was swallowed: %s returned normally' % (
                    type(x).__name__, w, op['fn'])])
            elif e is not x:
                found.append([f, 'replaced', '%s raised in %s reached the caller as %s(%s)' % (
                    type(x).__name__, w, type(e).__name__, str(e)[:120])])
            if found:
                break
        return dict(found=found, info=info, steps=steps[0], lines=[common.lid(c, l) for c, l in alll])
    try:
        res = forkrun.fork(child)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    o['kinds']['op:' + op['fn']] = 1
    for f, n, end in res['info']:
        if f and n:
            k = 'fault:%s-%s' % (f[2], 'in-line' if f[0] == 'line' else f[0])
            o['kinds'][k] = o['kinds'].get(k, 0) + 1
            common.stat(o, struck_calls=1)
            o['nontrivial'] = True
        elif f is None:
            o['kinds']['undisturbed:' + ('value' if end == 'NoneType' else end)] = 1
    common.stat(o, steps=res['steps'])
    o['lines'] = res['lines']
    o['sig'] = repr((op['fn'], [x[0] for x in res['info']]))
    for f, cls, msg in res['found']:
        plan['faults'] = [f]
        o['violations'].append(dict(cls=cls, msg=msg))
    return o


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)

    def tryp(mut):
        nonlocal p
        q = copy.deepcopy(p)
        mut(q)
        if budget() and fails(q):
            p = q
    f = p['faults'][0]
    if f[0] == 'line':   # the first occurrence
        for k in (2, 4, 16):
            tryp(lambda q: q['faults'][0].__setitem__(1, max(1, f[1] // k)))
    else:
        tryp(lambda q: q['faults'][0].__setitem__(1, 1))
    for k in ('season', 'naive', 'calendar', 'yearly', 'weekly', 'form'):
        if k in p['op']:
            tryp(lambda q: q['op'].pop(k))
    for k in sorted(p['op'].get('kw', {})):
        tryp(lambda q: q['op']['kw'].pop(k))
    return p
