"""C15 - the command-line application survives disk faults and crashes."""
import copy
import errno
import io
import os
import random
import shutil
import sys
import tempfile

from dst import boot, canon, common, data as D, forkrun, plots, rng, shim, sim

ID = 'C15'
PLOTS = True
RULE = ('a run counts as non-trivial if at least one injected fault or crash really hit a run of the application that '
        'was then judged by the files it left and by a rerun on a healthy disk')
SIZES = dict(quick=64, thorough=2500)
WALL_QUICK = 240
STUBS = ['disk errors, full disk, short reads and writes, crashes (LD_PRELOAD file layer over a real scratch '
         'directory); loss of data not yet synced is applied to the directory after the crash',
         'from the second run of the application on the same input: the forecast itself, if asked for with the same '
         'arguments (its recorded result is returned)', 'entropy', 'clocks', 'web browser']
REAL = ['anticipy', 'matplotlib', 'plotly', 'numpy', 'scipy', 'pandas', 'CPython', 'file system (scratch directory)']
ERRS = ('EIO', 'ENOSPC', 'EACCES', 'EROFS', 'EMFILE', 'EDQUOT', 'ENOENT', 'EINTR')


def gen(r, tier):
    f = r.choice(['D', 'D', 'W-MON', 'MS', 'x'])
    s = D.gen_spec(r, freqs=(f,), n=dict(D=r.choice([30, 60]), MS=24).get(f, 30))
    plan = dict(prop=ID, data=s)
    if r.random() < 0.3:
        s2 = dict(s, seed=r.randrange(1 << 30), level=s['level'] + 5)
        plan['data'] = dict(sources=dict(sa=s, sb=s2))
    plan['seed_rng'] = r.randrange(1 << 30)
    plan['fmt'] = r.choice(['png', 'png', 'html'])
    plan['main'] = r.random() < 0.4
    a = dict(forecast_years=0.5 if f != 'D' else 0.1)
    if r.random() < 0.3:
        a['include_all_fits'] = True
    ren = {}
    if r.random() < 0.3:
        ren = {c: c.upper() + '_col' for c in ('y', 'date', 'x', 'weight', 'source') if r.random() < 0.6}
    plan['args'], plan['rename'] = a, ren
    plan['cwd'] = r.choice(['top', 'in', 'else'])
    plan['in'] = r.choice(['in/series.csv', 'in/series.csv', 'in/my.data.csv', 'in/noext', 'top.csv'])
    plan['rel_in'] = r.random() < 0.5
    plan['out'] = r.choice([None, None, 'out', 'out/', 'out/', 'file'])
    plan['rel_out'] = r.random() < 0.5
    files = {'in': None, 'out': None, 'else': None, 'out/keep.csv': 'a,b\n1,2\n', 'in/other_fcast.csv': 'x\n1\n',
             'else/keep.txt': 'k', 'out/series.csv': 'y\n5\n', 'file.txt': 'f', 'in/series.png': 'no png',
             'series_fcast.csv': 'elsewhere\n'}
    base = os.path.basename(plan['in']).split('.')[0]
    od = outdir(plan)
    if r.random() < 0.4:     # output of an earlier, longer run
        for x in ('_fcast.csv', '_metadata.csv', '_fcast.' + plan['fmt']):
            if r.random() < 0.8:
                files[os.path.join(od, base + x)] = 'old,%s\n' % x + 'z,1\n' * r.choice([2, 60000])
    if plan['out'] == 'file':
        files['out/series.csv'] = 'y\n5\n'
    files.pop(plan['in'], None)
    plan['files'] = files
    plan['fault_seed'] = r.randrange(1 << 30)
    plan['nf'] = 5
    plan['faults'] = None
    return plan


def outdir(plan):
    if plan['out'] is None:
        return os.path.dirname(plan['in'])
    return 'out'


def targets(plan):
    b = os.path.join(outdir(plan), os.path.basename(plan['in']).split('.')[0])
    return [b + '_fcast.csv', b + '_metadata.csv', b + '_fcast.' + plan['fmt']]


def frame(plan):
    df = D.make(plan['data'])
    return df.rename(columns=plan['rename'])


_memo = [None]   # (key, pickled result) of the forecast made by the undisturbed run; inherited by later children


def attempt(plan, fault, d, record=False):
    """One run of the application in a process of its own over scratch directory d."""
    S = shim.Shared()

    def child():
        S.attach()
        common.setup_child('app')
        import anticipy.forecast as fc
        import pickle
        real = fc.run_forecast
        made = []

        def run_forecast(*a, **k):
            key = repr(canon.canon((list(a), k)))
            if not record and _memo[0] is not None and _memo[0][0] == key:
                return pickle.loads(_memo[0][1])
            res = real(*a, **k)
            if record:
                try:
                    made.append((key, pickle.dumps({x: (v.drop(columns=[c for c in ('model_obj', 'f_model')
                                                                        if c in v]) if hasattr(v, 'drop') else v)
                                                    for x, v in res.items()}, protocol=4)))
                except Exception:
                    pass
            return res
        if fault is not None or record:
            fc.run_forecast = run_forecast
        seen = plots.watch_figures()
        try:
            app = boot.load_app()
        except Exception as e:
            return dict(end=('err', type(e).__name__, str(e)[:200]), viol=None, steps=0, made=[], calls=0, lines=[],
                        fig=None)
        os.chdir(os.path.join(d, '' if plan['cwd'] == 'top' else plan['cwd']))
        here = os.getcwd()

        def p(rel, relative):
            q = os.path.join(d, rel)
            return os.path.relpath(q, here) + ('/' if rel.endswith('/') else '') if relative else q
        pin = p(plan['in'], plan['rel_in'])
        pout = dict(file='out/series.csv').get(plan['out'], plan['out'])
        pout = p(pout, plan['rel_out']) if pout else None
        rng.seed(plan['seed_rng'])
        L = shim.lib()
        budget = -1
        for f in fault or ():
            if f[0] == 'budget':
                budget = f[1]
            else:
                L.dst_fault(f[1], shim.KINDS[f[0]], f[2], f[3])
        lines = set()
        s = sim.Sim(lines=lines, cap=40000000)
        sys.stdin = io.StringIO()
        cols = {c: plan['rename'].get(c, c) for c in ('y', 'weight', 'x', 'date', 'source')}

        def body():
            try:
                if plan['main']:
                    sys.argv = ['anticipy', '--path_in', pin, '--output_format', plan['fmt']] + \
                        (['--path_out', pout] if pout else []) + \
                        ['--forecast_years', str(plan['args']['forecast_years'])] + \
                        (['--include_all_fits'] if plan['args'].get('include_all_fits') else [])
                    for c in sorted(cols):
                        if cols[c] != c:
                            sys.argv += ['--col_name_' + c, cols[c]]
                    app.main()
                else:
                    app.run_forecast_app(pin, pout, output_format=plan['fmt'],
                                         **dict(plan['args'], **{'col_name_' + c: v for c, v in cols.items()}))
                return ('normal',)
            except SystemExit as e:
                return ('normal',) if e.code in (None, 0) else ('err', 'SystemExit', str(e.code))
            except Exception as e:
                return ('err', type(e).__name__, str(e).replace(d, '')[:200])
        s.add('app', body)
        L.dst_fs(1, 1, d.encode(), budget)
        s.run()
        L.dst_fs(0, 0, d.encode(), -1)
        if s.tasks[0].error is not None:
            raise s.tasks[0].error
        return dict(end=s.tasks[0].result, viol=s.violation, steps=s.tasks[0].steps, made=made[:1],
                    calls=len(made), lines=[common.lid(c, l) for c, l in lines],
                    fig=seen[-1] if seen else None)
    try:
        kind, res = forkrun.fork(child, expect_death=True)
        if kind == 'died':
            if res != 113:
                raise forkrun.ChildDied(res)
            res = dict(end=('killed',), viol=None, lines=[], steps=0, made=[], calls=0, fig=None)
        res['ops'], res['nops'], res['outside'] = S.read_log()
    finally:
        S.close()
    return res


def power_loss(d, log, how, r, before):
    """Apply the loss of data that had not been synced when the machine died."""
    w, synced = {}, set()
    for e in log:
        rel = os.path.relpath(e['path'], d)
        if e['op'] == 'WRITE' or (e['op'] == 'OPEN' and e['path2'] == 'w'):
            w.setdefault(rel, []).append(e)
        elif e['op'] == 'FSYNC' and not e['err']:
            w.pop(rel, None)
        elif e['op'] == 'RENAME' and not e['err'] and rel in w:
            w[os.path.relpath(e['path2'], d)] = w.pop(rel)
    n = 0
    for rel in sorted(w):
        p = os.path.join(d, rel)
        if not os.path.isfile(p):
            continue
        size = os.path.getsize(p)
        k = how if how != 'mixed' else r.choice(['empty', 'cut', 'zeros', 'kept', 'gone', 'old'])
        if k == 'kept':
            continue
        n += 1
        if k == 'gone' and rel not in before:
            os.unlink(p)
        elif k == 'old' and rel in before and before[rel] is not None:
            with open(p, 'wb') as f:
                f.write(before[rel])
        elif k == 'zeros' and size:
            with open(p, 'r+b') as f:
                f.seek(r.randrange(size))
                f.write(b'\0' * (size - f.tell()))
        else:
            with open(p, 'r+b') as f:
                f.truncate(0 if k == 'empty' or not size else r.randrange(size))
    return n


def gen_faults(r, plan, ref):
    ops = [e for e in ref['ops'] if e['op'] != 'OUTSIDE']
    total = sum(e['len'] for e in ops if e['op'] == 'WRITE')
    out = []
    for _ in range(plan['nf']):
        h = []
        for _ in range(r.choice([1, 1, 1, 2])):
            k = r.choice(['err', 'err', 'err', 'dead', 'crash', 'crash', 'crash', 'torn', 'budget', 'short'])
            # aim at every kind of operation on every file alike
            f, t = r.choice(sorted({(e['path'], e['op']) for e in ops}))
            e = r.choice([e for e in ops if (e['path'], e['op']) == (f, t)])
            er = r.choice(ERRS)
            if k == 'err':
                fs = [['ERR', e['n'], getattr(errno, er), 0]]
            elif k == 'dead':
                fs = [['ERR', e['n'], errno.EIO if er == 'EINTR' else getattr(errno, er),
                       shim.STICKY | shim.ANY_LATER]]
            elif k == 'crash':
                fs = [[r.choice(['CRASH_BEFORE', 'CRASH_AFTER']), e['n'], 0, 0]]
            elif k == 'torn':
                e = r.choice([e for e in ops if e['op'] == 'WRITE'])
                fs = [['CRASH_TORN', e['n'], 0, 0]]
            elif k == 'budget':
                fs = [['budget', r.choice([0, 1, r.randrange(total), r.randrange(total), total - 1])]]
            else:
                w = [e for e in ops if e['op'] in ('WRITE', 'READ') and e['len'] > 1]
                fs = [['SHORT', e['n'], r.choice([0, 1, 7]), 0] for e in r.sample(w, min(len(w), r.choice([1, 3])))]
            h.append([fs, r.choice(['none', 'none', 'empty', 'cut', 'zeros', 'mixed', 'mixed']), r.randrange(1 << 30)])
        out.append(h)
    return out


def scratch(plan):
    d = tempfile.mkdtemp(prefix='dst-c15-')
    plots.fill(d, plan['files'])
    plots.fill(d, {plan['in']: frame(plan).to_csv(index=False)})
    return d


def table_of(data):
    import pandas as pd
    df = pd.read_csv(io.BytesIO(data), float_precision='round_trip')
    return df.drop(columns=[c for c in ('fit_time',) if c in df])


def direct(plan, d):
    """What the library itself answers for the input file (an independent second opinion on the tables)."""
    def child():
        common.setup_child('app')
        import pandas as pd
        import anticipy.forecast as fc
        df = pd.read_csv(os.path.join(d, plan['in']))
        cols = {c: plan['rename'].get(c, c) for c in ('y', 'weight', 'x', 'date', 'source')}
        if cols['date'] in df:
            df[cols['date']] = pd.to_datetime(df[cols['date']])
        rng.seed(plan['seed_rng'])
        df = fc.normalize_df(df, cols['y'], cols['weight'], cols['x'], cols['date'], cols['source'])
        r = fc.run_forecast(df, extrapolate_years=plan['args']['forecast_years'], simplify_output=False,
                            include_all_fits=plan['args'].get('include_all_fits', False))
        return r['data'].to_csv(index=False).encode(), r['metadata'].to_csv(index=False).encode()
    return forkrun.fork(child)


def same(a, b):
    """Two files hold the same output (elapsed times and random element identities apart)."""
    if a == b or plots.norm(a) == plots.norm(b):
        return True
    if a is None or b is None or a[:4] == b'\x89PNG' or b'<html' in b[:200]:
        return False
    try:
        x, y = table_of(a), table_of(b)
        return list(x.columns) == list(y.columns) and len(x) == len(y) and x.equals(y)
    except Exception:
        return False


def run(plan):
    o = dict(violations=[], stats={}, nontrivial=False, kinds={})
    lines, sig = set(), []
    r = random.Random(plan['fault_seed'])
    _memo[0] = None
    d = scratch(plan)
    try:
        before = plots.tree(d)
        ref = attempt(plan, None, d, record=True)
        good = plots.tree(d)
        dt = direct(plan, d) if ref['end'] == ('normal',) else None
    finally:
        shutil.rmtree(d, ignore_errors=True)
    lines.update(ref['lines'])
    o['lines'] = sorted(lines)
    common.stat(o, app_runs=1, steps=ref['steps'], file_operations=ref['nops'])
    for k in ('out:%s' % plan['out'], 'fmt:' + plan['fmt'], 'via:' + ('main' if plan['main'] else 'function')):
        o['kinds'][k] = 1
    v = judge_ref(plan, ref, before, good, dt)
    if v:
        o['violations'].append(v)
        plan['faults'] = []
        return o
    if ref['end'] != ('normal',):
        o['kinds']['rejected'] = 1
        return o
    _memo[0] = ref['made'][0] if ref['made'] else None
    if ref['calls'] > 1:
        _memo[0] = None
    fl = plan['faults']
    if fl is None:
        fl = gen_faults(r, plan, ref)
    for h in fl:
        d = scratch(plan)
        try:
            v = None
            for fs, loss, lseed in h:
                prev = plots.tree(d)
                res = attempt(plan, fs, d)
                common.stat(o, app_runs=1, file_operations=res['nops'])
                lines.update(res['lines'])
                hit = [e for e in res['ops'] if e['fault']]
                sig.append([(e['op'], e['fault'], os.path.basename(e['path'])) for e in hit])
                for e in hit:
                    k = 'fault:%s-%s' % (e['fault'], e['op'])
                    o['kinds'][k] = o['kinds'].get(k, 0) + 1
                o['nontrivial'] = o['nontrivial'] or bool(hit)
                after = plots.tree(d)
                v = judge(plan, res, hit, prev, after, good, d)
                if v:
                    break
                if res['end'] == ('killed',) and loss != 'none':
                    n = power_loss(d, res['ops'], loss, random.Random(lseed), prev)
                    if n:
                        k = 'fault:unsynced-data-lost'
                        o['kinds'][k] = o['kinds'].get(k, 0) + n
            if not v:
                prev = plots.tree(d)
                res = attempt(plan, [], d)
                common.stat(o, app_runs=1, reruns_compared=1)
                after = plots.tree(d)
                if res['end'] != ('normal',):
                    v = dict(cls='rerun', msg='run again on a healthy disk after %s: %s' % (story(sig, h), res['end']))
                else:
                    v = judge(plan, res, [], prev, after, good, d)
                    for t in targets(plan):
                        if not v and not same(after.get(t), good.get(t)):
                            v = dict(cls='rerun', msg='run again on a healthy disk after %s: %s differs from an '
                                     'undisturbed run' % (story(sig, h), t))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if v:
            o['violations'].append(v)
            plan['faults'] = [h]
            break
    o['lines'] = sorted(lines)
    o['sig'] = repr((plan['out'], plan['fmt'], sig))
    return o


def story(sig, h):
    return '; '.join(', '.join('%s at %s of %s' % (f, op, p) for op, f, p in s[:2]) or 'a clean run'
                     for s in sig[-len(h):])


def judge_ref(plan, ref, before, good, dt):
    if ref['viol']:
        return dict(cls='hung', msg='the undisturbed application does not end: %s' % (ref['viol'],))
    v = judge(plan, ref, [], before, good, None, None)
    if v:
        return v
    if ref['end'] != ('normal',):
        return dict(cls='refused', msg='the application fails although nothing is wrong: %s' % (ref['end'],))
    t = targets(plan)
    for p, want in zip(t, dt):
        if good.get(p) is None:
            return dict(cls='incomplete', msg='the application ended normally without writing %s' % p)
        if not same(good[p], want):
            return dict(cls='incomplete', msg='%s does not hold the %s table of the forecast' % (
                p, 'forecast' if p == t[0] else 'metadata'))
    data = good.get(t[2])
    if data is None or data == before.get(t[2]):
        return dict(cls='incomplete', msg='the application ended normally without writing %s' % t[2])
    import pandas as pd
    df = pd.read_csv(io.BytesIO(good[t[0]]), float_precision='round_trip', parse_dates=['date']
                     if isinstance(table_of(good[t[0]]).date.iloc[0], str) else False)
    kw = dict(output=plan['fmt'], include_interval=False)
    if 'source' not in df:
        df['source'] = 'y'
    if plan['fmt'] == 'html':
        m = plots.shown_html(data)
        m = None if m else 'no plot in the file'
    else:
        m = None if data.startswith(b'\x89PNG') and data.rstrip().endswith(b'IEND\xaeB`\x82') else \
            'not a complete png file'
    if m:
        return dict(cls='incomplete', msg='%s: %s' % (t[2], m))
    return None


def judge(plan, res, hit, prev, after, good, d):
    what = 'the application%s' % (', hit by %s,' % ', '.join('%s at file operation %s (%s of %s)' % (
        e['fault'] + ('/' + errno.errorcode.get(e['err'], '?') if e['err'] else ''), e['n'], e['op'],
        os.path.basename(e['path'])) for e in hit[:3]) if hit else '')
    if res['viol']:
        return dict(cls='hung', msg='%s does not end: %s' % (what, res['viol']))
    t = targets(plan)
    for k in sorted(set(prev) | set(after)):
        if k in t:
            continue
        if prev.get(k, 0) != after.get(k, 0):
            if res['end'] == ('killed',) and k not in prev:
                continue    # a temporary file of a process that was killed
            return dict(cls='other-file', msg='%s %s %s' % (
                what, 'created' if k not in prev else 'removed' if k not in after else 'changed', k))
    if res['outside']:
        e = [e for e in res['ops'] if e['op'] == 'OUTSIDE'][0]
        return dict(cls='other-file', msg='%s tried to modify %s' % (what, e['path']))
    if good is None:
        return None
    if res['end'] == ('normal',):
        for p in t:
            if not same(after.get(p), good.get(p)):
                return dict(cls='false-success', msg='%s ended normally, but %s is %s' % (
                    what, p, 'missing' if after.get(p) is None else 'not complete and correct (%d bytes instead of %d)'
                    % (len(after[p]), len(good[p]))))
    elif res['end'][0] == 'err' and not hit:
        return dict(cls='refused', msg='%s fails although nothing is wrong: %s' % (what, res['end'],))
    # a failure while plotting never damages the tables already written
    plot = os.path.basename(t[2])
    if hit and all(os.path.basename(e['path']) == plot for e in hit) and res['end'][0] != 'normal':
        for p in t[:2]:
            if not same(after.get(p), good.get(p)):
                return dict(cls='damaged', msg='%s: the failure while plotting damaged %s' % (what, p))
    return None


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)

    def tryp(mut):
        nonlocal p
        q = copy.deepcopy(p)
        mut(q)
        if budget() and fails(q):
            p = q
    if p['faults']:
        for i in reversed(range(len(p['faults'][0]))):
            if len(p['faults'][0]) > 1:
                tryp(lambda q: q['faults'][0].pop(i))
        for i in range(len(p['faults'][0])):
            tryp(lambda q: q['faults'][0][i].__setitem__(1, 'none'))
            for j in reversed(range(len(p['faults'][0][i][0]))):
                if len(p['faults'][0][i][0]) > 1:
                    tryp(lambda q: q['faults'][0][i][0].pop(j))
    tryp(lambda q: q.__setitem__('rename', {}))
    tryp(lambda q: q.__setitem__('main', False))
    if 'sources' in p['data']:
        tryp(lambda q: q.__setitem__('data', q['data']['sources']['sa']))
    return p
