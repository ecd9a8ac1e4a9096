"""C07 - seeded forecasts are reproducible in every process environment."""
import copy
import gc
import logging
import os
import random
import shutil
import tempfile
import time

import numpy as np
import pandas as pd

from dst import canon, common, data as D, forkrun, fresh, models as M, ops, rng, shim, sim

ID = 'C07'
RULE = ('a run counts as non-trivial if at least one operation that returned a value (not an error) was executed in '
        'two or more different process environments')
SIZES = dict(quick=56, thorough=2400)
STUBS = ['set iteration order (forked variants; fresh interpreters use real sets and hash seeds)', 'clocks', 'entropy']


def gen(r, tier):
    plan = dict(prop=ID)
    plan['data'], plan['models'] = ops.gen_world(r, nd=2, nm=r.choice([2, 3]), multi=0.5)
    n = r.choice([3, 4, 5])
    plan['ops'] = [gen_op(r, plan) for _ in range(n)]
    plan['variants'] = [gen_variant(r) for _ in range(3)]
    for v in plan['variants']:
        if r.random() < 0.3:
            v['wall'] = ops.moments(plan['data']['d0'], r)
    plan['fresh'] = [gen_fresh(r) for _ in range(1 if tier == 'quick' else 2)]
    return plan


def gen_op(r, plan):
    if r.random() < 0.6:
        d = r.choice(sorted(plan['data']))
        ds = plan['data'][d]
        if 'sources' in ds:
            ds = next(iter(ds['sources'].values()))
        op = ops.gen_run(r, plan, d, ds)
        if r.random() < 0.6:
            op['kw']['season_add_mult'] = 'both'     # candidate lists pass through a set
        op['kw']['simplify_output'] = r.random() < 0.2
        if r.random() < 0.7:
            op['kw']['include_all_fits'] = True
        return op
    return ops.gen_op(r, plan, heavy=0.2)


def gen_variant(r):
    return dict(sets=r.choice(['rev', r.randrange(1 << 20), r.randrange(1 << 20)]),
                wall=r.choice([0, 10 ** 9, 1456704000, 2147483647, 4102444800, r.randrange(4 * 10 ** 9)]),
                tick=r.choice([0, 1, 10 ** 6, 10 ** 9]), tz=r.choice(['UTC', 'Asia/Kolkata', 'America/New_York',
                                                                      'XYZ-13', 'Europe/London']),
                entropy=r.randrange(1 << 30), junk=r.randrange(1, 4000), cwd=r.random() < 0.7,
                repeat=r.random() < 0.5, pyrandom=r.randrange(1 << 30),
                cpu=r.choice([None, 1, 2, 3, 64]), pin=r.random() < 0.3, vars=r.random() < 0.5,
                log=r.choice([None, 5, 10, 30, 50]), show=r.random() < 0.5, pid=r.choice([None, 1, 77, 4000000]),
                gc=r.random() < 0.3, host=r.random() < 0.5)


VARS = dict(HOME='/nonexistent', USER='somebody', LANG='de_DE.UTF-8', LC_ALL='C', TMPDIR='/nonexistent', CI='1',
            DEBUG='1', TEST='1', ENV='prod', PYTEST_CURRENT_TEST='x', COLUMNS='7', NO_COLOR='1', OMP_NUM_THREADS='3',
            ANTICIPY='1', LOGLEVEL='DEBUG', HOSTNAME='other')


class Null(logging.Handler):
    def emit(self, record):
        record.getMessage()


def surround(v):
    """Everything about the process that is not an argument of the call."""
    if v.get('cpu'):
        os.cpu_count = lambda: v['cpu']
        import multiprocessing
        multiprocessing.cpu_count = os.cpu_count
    if v.get('pin'):
        os.sched_setaffinity(0, {min(os.sched_getaffinity(0))})
    if v.get('vars'):
        os.environ.update(VARS)
    if v.get('log') is not None:
        logging.root.addHandler(Null())
        logging.root.setLevel(v['log'])
        logging.getLogger('anticipy').setLevel(v['log'])
    if v.get('show'):
        pd.set_option('display.max_rows', 4, 'display.max_columns', 2, 'display.precision', 2, 'display.width', 40)
    if v.get('pid'):
        os.getpid = lambda: v['pid']
    if v.get('host'):
        import platform
        import socket
        socket.gethostname = platform.node = lambda: 'elsewhere'
        os.getlogin = lambda: 'somebody'
    if v.get('gc'):
        gc.disable()


def gen_fresh(r):
    return dict(hashseed=r.choice([1, 2, 3, r.randrange(1 << 32)]), v=gen_variant(r))


def with_dir(fn):
    d = tempfile.mkdtemp(prefix='dst7')
    try:
        return fn(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(plan, op, v=None):
    """Outcome(s) of one operation in one process environment: a forked child of this (pristine) process."""
    def child():
        common.setup_child('base' if v is None else v['entropy'])
        env = ops.Env(plan).prepare()
        keep = []
        if v is not None:
            sim.set_order[0] = v['sets']
            shim.lib().dst_clock(1, 10 ** 15 + v['wall'] % 997, v['wall'] * 10 ** 9, v['tick'])
            os.environ['TZ'] = v['tz']
            time.tzset()
            keep = [bytearray(i % 700 + 1) for i in range(v['junk'])] + [dict(a=i) for i in range(v['junk'] % 500)]
            if v['cwd'] and v.get('dir'):
                os.chdir(v['dir'])
            surround(v)
        rng._real['random.seed'](0 if v is None else v['pyrandom'])
        out = []
        for _ in range(2 if v is not None and v['repeat'] else 1):
            a = ops.prep(op, env)
            lines = set()
            s = sim.Sim(lines=lines)

            def body():
                rng._real['seed'](op['seed'] % (2 ** 32))
                try:
                    return ('ok', canon.canon(ops.call(op, env, a)))
                except Exception as e:
                    return ('err', canon.canon(e))
            s.add('caller', body)
            s.run()
            if s.tasks[0].error is not None:
                raise s.tasks[0].error
            out.append(s.tasks[0].result)
        del keep
        return dict(out=out, lines=[common.lid(c, l) for c, l in lines], steps=s.tasks[0].steps,
                    reads=shim.lib().dst_reads())
    return forkrun.fork(child)


def in_fresh(job):
    v = dict(job['v'], dir=None)
    return [one(job['plan'], op, v) for op in job['plan']['ops']]


def run(plan):
    o = dict(violations=[], stats={}, nontrivial=False, kinds={}, sig=repr((plan['variants'], plan['fresh'])))
    ref = [one(plan, op) for op in plan['ops']]
    o['lines'] = [l for r in ref for l in r['lines']]
    for op, r in zip(plan['ops'], ref):
        for k in ('op:' + op['fn'], common.kinds_of(r['out'][0])):
            o['kinds'][k] = o['kinds'].get(k, 0) + 1
    bad = []

    def judge(i, got, what, v):
        common.stat(o, compared=len(got['out']), clock_reads=got['reads'], steps=got['steps'])
        for j, g in enumerate(got['out']):
            d = canon.diff(ref[i]['out'][0], g)
            if d:
                bad.append((i, v, dict(cls='differs', msg='%s (call %d: %s) differs in another process environment '
                                       '(%s%s): %s' % (plan['ops'][i]['fn'], i, plan['ops'][i].get('kw', {}), what,
                                                       ', repetition' if j else '', d))))
                return
        if ref[i]['out'][0][0] == 'ok':
            o['nontrivial'] = True

    def variants(d):
        for k, v in enumerate(plan['variants']):
            for i, op in enumerate(plan['ops']):
                judge(i, one(plan, op, dict(v, dir=d)), 'set order %s, wall clock %s, TZ %s' % (
                    v['sets'], v['wall'], v['tz']), ('variants', k))
            for x in ('set-order', 'clock', 'timezone', 'entropy'):
                o['kinds']['fault:' + x] = o['kinds'].get('fault:' + x, 0) + len(plan['ops'])
            for x in ('cpu', 'pin', 'vars', 'log', 'show', 'pid', 'gc', 'host'):
                if v.get(x):
                    o['kinds']['env:' + x] = o['kinds'].get('env:' + x, 0) + len(plan['ops'])
            if v['cwd']:
                o['kinds']['fault:cwd'] = o['kinds'].get('fault:cwd', 0) + len(plan['ops'])
            if bad:
                return
        for k, f in enumerate(plan['fresh']):
            job = dict(prop=ID, plan={x: plan[x] for x in ('data', 'models', 'ops')}, v=f['v'])
            res = fresh.run(job, dict(PYTHONHASHSEED=str(f['hashseed']), TZ=f['v']['tz'], DST_REALSET='1'), d,
                            os.path.join(d, 'out%d' % k))
            for i, g in enumerate(res):
                judge(i, g, 'fresh interpreter, PYTHONHASHSEED %s, TZ %s' % (f['hashseed'], f['v']['tz']), ('fresh', k))
            o['kinds']['fault:hash-seed'] = o['kinds'].get('fault:hash-seed', 0) + len(res)
            if bad:
                return
    with_dir(variants)
    common.stat(o, environments=1 + len(plan['variants']) + len(plan['fresh']))
    if bad:
        i, (k, n), v = bad[0]
        o['violations'].append(v)
        plan['ops'] = [plan['ops'][i]]
        plan['variants'], plan['fresh'] = ([plan[k][n]], []) if k == 'variants' else ([], [plan[k][n]])
    return o


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)

    def tryp(mut):
        nonlocal p
        q = copy.deepcopy(p)
        if mut(q) is False or not budget():
            return
        if fails(q):
            p = q
    base = dict(sets=None, wall=1614600000, tick=0, tz='UTC', entropy='base', junk=1, cwd=False, repeat=False,
                pyrandom=0, cpu=None, pin=False, vars=False, log=None, show=False, pid=None, gc=False, host=False)
    for k, x in base.items():
        if p['variants']:
            tryp(lambda q: q['variants'][0].__setitem__(k, x))
        elif p['fresh'] and k != 'entropy':
            tryp(lambda q: q['fresh'][0]['v'].__setitem__(k, x))
    for k in ('calendar', 'yearly', 'weekly', 'naive', 'season', 'trend', 'form'):
        if k in p['ops'][0]:
            tryp(lambda q: q['ops'][0].pop(k) and None)
    return p
