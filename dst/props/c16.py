"""C16 - process-wide state is left as it was found."""
import copy
import errno
import gc
import os
import random
import shutil
import sys
import tempfile
import threading

import numpy as np

from dst import boot, common, forkrun, models as M, ops, plots, procstate, rng, seams, shim, sim

ID = 'C16'
PLOTS = True
RULE = ('a run counts as non-trivial if at least one library call really ran (returned or failed) between two '
        'snapshots of the process state')
SIZES = dict(quick=560, thorough=20000)
STUBS = ['solver linear algebra (drawn failures)', 'caller-supplied functions (drawn errors)',
         'disk errors during plots and application runs (LD_PRELOAD file layer)', 'entropy', 'clocks', 'web browser']
REAL = ['anticipy', 'matplotlib', 'plotly', 'numpy', 'scipy', 'pandas', 'CPython', 'file system (scratch directory)']
EXC = dict(value=ValueError, runtime=RuntimeError, linalg=np.linalg.LinAlgError, fpe=FloatingPointError,
           key=KeyError, os=OSError, assertion=AssertionError)
ABORT = dict(kbd=KeyboardInterrupt, mem=MemoryError, exit=SystemExit)
CALLOUTS = ('model', 'init', 'bounds', 'valid', 'dummy', 'solver')


def setup():
    """Lazy initialisation of the plotting libraries themselves (imports, filters, font caches) - no library calls."""
    import io
    import warnings
    import matplotlib.pyplot as plt
    import plotly.graph_objs as go
    import plotly.io
    import plotly.offline
    import plotly.subplots
    import plotly.graph_objs._deprecations
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fig = plotly.subplots.make_subplots(rows=1, cols=2, subplot_titles=['a', 'b'])
        fig.add_trace(go.Scatter(x=[1, 2], y=[1, 2], fill='tonexty', mode='lines', line=dict(color='#fff')), 1, 1)
        fig.update_layout(title='t')
        plotly.offline.plot(fig, output_type='div', include_plotlyjs='cdn')
        with plt.style.context('ggplot'):
            f, ax = plt.subplots(nrows=1, ncols=2)
            ax[0].plot(np.arange('2019-01-01', '2019-02-01', dtype='datetime64[D]'), np.arange(31.), label='x')
            ax[0].fill_between(np.arange(3), np.arange(3), np.arange(3) + 1)
            ax[0].legend(loc='upper left')
            ax[0].set_title('t')
            f.savefig(io.BytesIO(), format='png')
            plt.close(f)
        procstate.snapshot()      # makes plotly import its renderers


def gen(r, tier):
    plan = dict(prop=ID)
    data, mods = ops.gen_world(r, nd=1, nm=r.choice([1, 2]), near=0.3, multi=0.2)
    ds = data['d0']
    if ds['n'] > 100:
        ds['n'] = 60
    plan['data'], plan['models'] = data, mods
    plan['state'] = procstate.gen(r)
    calls = []
    for _ in range(r.choice([2, 3, 4])):
        k = r.random()
        if k < 0.22:
            out = r.choice(['png', 'png', 'html'])
            t = plots.gen_table(r, small=True)
            t['src'] = r.choice([1, 1, 2])
            kw = plots.gen_kw(r, out)
            if r.random() < 0.15:
                kw['output'] = r.choice(['pdf', 'png'])
            op = dict(fn='plotf', table=t, kw=kw, path=r.choice(['p', 'new/p', 'a/b/p']),
                      seed=1, mkdir=r.random() < 0.7, drop=r.choice([None, None, None, 'y', 'model']))
        elif k < 0.26:
            op = dict(fn='app', seed=r.randrange(1 << 30), fmt=r.choice(['png', 'html']))
        elif k < 0.45:
            u = ['user', 'u0', dict(shape=r.choice(['line', 'wave', 'const']),
                                    valid=r.choice(['true', 'nothing', 'assert', 'false', None]))]
            if r.random() < 0.4 and ds['freq'] != 'x':
                u = [r.choice(['add', 'mul']), u, ['dfn', 'dm', r.choice(sorted(M.DFN))]]
            op = ops.gen_run(r, plan, 'd0', ds)
            op.update(trend=[u, ['std', 'linear']][:r.choice([1, 2])], season=[])
        else:
            op = ops.gen_op(r, plan, heavy=0.5)
        c = dict(op=op, reps=r.choice([1, 1, 1, 2, 3]), fault=None, bad=None)
        if op['fn'] in ('plotf', 'app'):
            if r.random() < 0.25 and op['fn'] == 'plotf':
                c['fault'] = ['raise', r.randrange(1 << 30), r.choice(sorted(ABORT)), False]
            elif r.random() < 0.5:
                c['fault'] = ['disk', r.randint(0, r.choice([2, 4, 12]) if op['fn'] == 'plotf' else 40),
                              r.choice(['EIO', 'ENOSPC', 'EACCES', 'EMFILE']), r.random() < 0.5]
        elif r.random() < 0.5:
            c['fault'] = [r.choice(CALLOUTS), r.choice([1, 1, 2, 3, 7]), r.choice(sorted(EXC)), r.random() < 0.4]
        elif r.random() < 0.3:
            c['fault'] = ['raise', r.randrange(1 << 30), r.choice(sorted(ABORT)), False]
        elif r.random() < 0.3:
            c['bad'] = r.choice(['column', 'type', 'dates', 'dates', 'values', 'empty', 'kw'])
        calls.append(c)
    plan['calls'] = calls
    plan['threads'] = None
    if r.random() < 0.2 and all(c['op']['fn'] not in ('plotf', 'app') for c in calls):
        plan['threads'] = r.randrange(1 << 30)
    return plan


def spoil(a, bad):
    """Unusable arguments."""
    if 'df' in a:
        if bad == 'column':
            a['df'] = a['df'].rename(columns={'y': 'nothing'}) if hasattr(a['df'], 'columns') else a['df'].iloc[:0]
        elif bad == 'type':
            a['df'] = dict(y=[1, 2, 3])
        elif bad == 'empty':
            a['df'] = a['df'].iloc[:0]
        elif bad in ('dates', 'values') and hasattr(a['df'], 'columns') and len(a['df']):
            c = ('date' if 'date' in a['df'] else 'y') if bad == 'dates' else 'y'
            if c in a['df']:
                v = a['df'][c].astype(object)
                v.iloc[len(v) // 2] = 'never'
                a['df'] = a['df'].assign(**{c: v})
    if 'ndf' in a and bad in ('column', 'empty'):
        a['ndf'] = a['ndf'].drop(columns='y') if bad == 'column' else a['ndf'].iloc[:0]
    if 'params' in a and bad == 'type':
        a['params'] = 'nonsense'
    if 'model' in a and bad == 'kw':
        a['model'] = None
    if 'trend' in a and bad == 'kw':
        a['trend'] = ['linear']
    return a


def child_fn(plan, d):
    common.setup_child('run')
    seams.name_models()
    os.mkdir(os.path.join(d, 'here'))
    os.chdir(os.path.join(d, 'here'))
    env = ops.Env(plan).prepare()
    app = None
    if any(c['op']['fn'] == 'app' for c in plan['calls']):
        try:
            app = boot.load_app()
        except Exception:
            pass
        df = env.frames['d0']
        df.to_csv(os.path.join(d, 'in.csv'), index=False)
        os.mkdir(os.path.join(d, 'out'))
    from anticipy import forecast_plot as fp
    procstate.apply(plan['state'])
    armed, counts, fired = {}, {}, []

    def hit(kind):
        if not armed or armed['kind'] != kind:
            return
        counts[kind] = counts.get(kind, 0) + 1
        if counts[kind] == armed['n'] or armed['sticky'] and counts[kind] > armed['n']:
            fired.append(kind)
            raise EXC[armed['exc']]('injected')
    for c in CALLOUTS[:-1]:
        M.hooks[c] = lambda name, c=c, **kw: hit(c)
    seams.solver(lambda name, fit, step: hit('solver'))
    io, on = [], [0]
    import matplotlib
    roots = tuple({os.path.realpath(p) + '/' for p in (
        sys.prefix, sys.base_prefix, os.path.dirname(os.__file__), os.path.dirname(np.__file__), boot.REPO,
        '/usr/share/zoneinfo', '/etc/localtime', '/usr/lib', boot.VERIF)} | {sys.prefix + '/', boot.REPO + '/'})
    procstate.audit(io, on, roots)
    rng.watch[0] = True
    found, info, lines = [], [], set()
    L = shim.lib()

    def prepare(c):
        op = c['op']
        if op['fn'] in ('plotf', 'app'):
            return None
        a = ops.prep(op, env)
        return spoil(a, c['bad']) if c['bad'] else a

    def do(c, a):
        op = c['op']
        if op['fn'] == 'plotf':
            df = a
            return fp.plot_forecast(df, path=os.path.join(d, op['path']), **op['kw'])
        if op['fn'] == 'app':
            if app is None:
                return None
            return app.run_forecast_app(os.path.join(d, 'in.csv'), os.path.join(d, 'out', ''), forecast_years=0.1,
                                        output_format=op['fmt'])
        return ops.call(op, env, a)

    def args(c):
        a = prepare(c)
        if c['op']['fn'] == 'plotf':
            a = plots.table(c['op']['table'])
            if c['op']['drop']:
                a = a.drop(columns=c['op']['drop'])
        return a

    def tidy(op):
        for x in os.listdir(d):
            if x not in ('in.csv', 'out', 'here'):
                p = os.path.join(d, x)
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        if op.get('mkdir'):
            os.makedirs(os.path.dirname(os.path.join(d, op['path'])), exist_ok=True)

    def swallow(c, a, pure=True):
        try:
            r = do(c, a)
            return 'value' if pure else 'rc %r' % (r,)
        except (Exception, SystemExit, KeyboardInterrupt) as e:
            return 'error:' + type(e).__name__

    def one(c, rep=0):
        op = c['op']
        at = None
        if c['fault'] and c['fault'][0] == 'raise':
            tidy(op)
            s = sim.Sim(trace=True, cap=8000000)
            a = args(c)
            rng.seed(op['seed'])
            s.add('caller', lambda: swallow(c, a)[0])
            s.run()
            tr = common.compress(s.trace)
            r = random.Random(repr((c['fault'][1], rep)))
            at = r.choice(tr[common.pick_line(r, tr, 0.2)]) + r.choice([0, 0, 1]) if tr else 1
            s = a = None
        a = args(c)
        counts.clear()
        armed.clear()
        del fired[:], io[:], rng.reseeded[:]
        tidy(op)
        rng.seed(op['seed'])
        del rng.reseeded[:]
        gc.collect()
        pure = op['fn'] not in ('plotf', 'app')
        nlog = L.dst_nlog()
        before = procstate.snapshot()
        st0 = np.random.get_state()
        if c['fault'] and c['fault'][0] == 'disk':
            _, n, er, sticky = c['fault']
            L.dst_fault(L.dst_nops() + n, shim.KINDS['ERR'], getattr(errno, er),
                        shim.STICKY | shim.ANY_LATER if sticky else 0)
        elif c['fault'] and at is None:
            armed.update(kind=c['fault'][0], n=c['fault'][1], exc=c['fault'][2], sticky=c['fault'][3])
        if not pure:
            L.dst_fs(1, 0, d.encode(), -1)
        try:
            if at is None:
                on[0] = threading.get_ident() if pure else 0
                end = swallow(c, a, pure)
            else:
                s = sim.Sim(cap=8000000)
                s.guard = True

                def body():
                    on[0] = threading.get_ident() if pure else 0
                    return swallow(c, a, pure)
                s.add('caller', body, [(at, 'raise', lambda: ABORT[c['fault'][2]]('injected'))])
                s.run()
                if s.tasks[0].error is not None:
                    raise s.tasks[0].error
                end = s.tasks[0].result
                fired.extend(x[3] for x in s.injected)
                s = body = None
        finally:
            on[0] = 0
            L.dst_fs(0, 0, d.encode(), -1)
        armed.clear()
        a = None
        gc.collect()
        L.dst_clear_faults()
        hitd = any(e['fault'] for e in shim.log(nlog))
        procstate.settle(before)
        st1 = np.random.get_state()
        after = procstate.snapshot()
        info.append([op['fn'], end, (c['fault'][0] if (fired or hitd) else None) if c['fault'] else c['bad']])
        for k, t in procstate.differences(before, after):
            found.append([k.replace(' ', '-'), '%s (%s%s) changed the %s' % (
                op['fn'], end, (', interrupted at %s' % fired[0] if at else ', hit by a %s fault' % c['fault'][0]) if fired or hitd else '', t)])
        if rng.reseeded:
            found.append(['reseeded', '%s (%s) reseeded or replaced the global random generator: %s' % (
                op['fn'], end, rng.reseeded[0])])
        elif not procstate.advanced(st0, st1):
            found.append(['reseeded', '%s (%s) left the global random generator in a state that drawing cannot reach' %
                          (op['fn'], end)])
        if pure and io:
            found.append(['io', '%s (%s) %s' % (op['fn'], end, io[0])])
        if pure and seams.browser:
            found.append(['io', '%s (%s) opened a browser' % (op['fn'], end)])
    if plan['threads'] is None:
        for c in plan['calls']:
            for i in range(4 if c['fault'] and c['fault'][0] == 'raise' else c['reps']):
                one(c, i)
                if found:
                    break
            if found:
                break
        return dict(found=found, info=info, sw=0)
    # several threads at once: the state after all of them have ended
    r = random.Random(plan['threads'])
    args = [prepare(c) for c in plan['calls']]
    gc.collect()
    rng.seed(1)
    del rng.reseeded[:]
    before = procstate.snapshot()
    st0 = np.random.get_state()
    s = sim.Sim(cap=8000000)
    n = len(plan['calls'])
    for i, c in enumerate(plan['calls']):
        def body(c=c, a=args[i]):
            try:
                do(c, a)
                return 'value'
            except Exception as e:
                return 'error:' + type(e).__name__
        ev = sorted({(int(10 ** r.uniform(0, 4.5)), r.choice([j for j in range(n) if j != i]))
                     for _ in range(r.choice([3, 10, 40]))}) if n > 1 else []
        s.add('t%d' % i, body, [(a, 'switch', b) for a, b in ev])
    s.run()
    if s.violation is None:
        for t in s.tasks[:n]:
            if t.error is not None:
                raise t.error
        gc.collect()
        procstate.settle(before)
        after = procstate.snapshot()
        for c, t in zip(plan['calls'], s.tasks):
            info.append([c['op']['fn'], t.result, None])
        for k, t in procstate.differences(before, after):
            found.append([k.replace(' ', '-'), '%d concurrent calls (%s) changed the %s' % (
                n, ', '.join(c['op']['fn'] for c in plan['calls']), t)])
        if rng.reseeded:
            found.append(['reseeded', 'a call reseeded or replaced the global random generator: %s' % rng.reseeded[0]])
        elif not procstate.advanced(st0, np.random.get_state()):
            found.append(['reseeded', 'the global random generator is in a state that drawing cannot reach'])
    return dict(found=found, info=info, sw=len(s.switches))


def run(plan):
    o = dict(violations=[], stats={}, nontrivial=False, kinds={})
    d = tempfile.mkdtemp(prefix='dst-c16-')
    os.chmod(d, 0o755)
    try:
        res = forkrun.fork(lambda: child_fn(plan, d))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for fn, end, f in res['info']:
        for k in ('op:' + fn, end.split(':')[0] if end else 'none') + (('fault:' + f,) if f else ()):
            o['kinds'][k] = o['kinds'].get(k, 0) + 1
        common.stat(o, calls_checked=1)
        o['nontrivial'] = True
    if plan['threads'] is not None:
        o['kinds']['concurrent'] = 1
        common.stat(o, switches=res['sw'])
    o['lines'] = []
    o['sig'] = repr((res['info'], plan['state'], res['sw']))
    for cls, msg in res['found']:
        o['violations'].append(dict(cls=cls, msg=msg))
    return o


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)

    def tryp(mut):
        nonlocal p
        q = copy.deepcopy(p)
        mut(q)
        if budget() and fails(q):
            p = q
    for i in reversed(range(len(p['calls']))):
        if len(p['calls']) > 1:
            tryp(lambda q: q['calls'].pop(i))
    if p['threads'] is not None:
        tryp(lambda q: q.__setitem__('threads', None))
    for c in range(len(p['calls'])):
        tryp(lambda q: q['calls'][c].__setitem__('reps', 1))
        tryp(lambda q: q['calls'][c].__setitem__('fault', None))
        tryp(lambda q: q['calls'][c].__setitem__('bad', None))
    for k in sorted(p['state']):
        tryp(lambda q: q['state'].__setitem__(k, dict(sig=False, env=None, print=None, misc=False, rc=False,
                                                     umask=None)[k]) if k in ('sig', 'env', 'print', 'misc', 'rc',
                                                                              'umask') else q['state'].pop(k))
    return p
