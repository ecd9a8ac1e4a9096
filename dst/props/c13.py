"""C13 - a plot is reported as done only if it was really written."""
import copy
import errno
import os
import random
import shutil
import tempfile

from dst import boot, common, forkrun, plots, rng, seams, shim, sim

ID = 'C13'
REAL = ['anticipy', 'matplotlib', 'plotly', 'pandas', 'CPython', 'file system (scratch directory)']
PLOTS = True
RULE = ('a run counts as non-trivial if at least one injected fault (or unusable request) really hit a plot call that '
        'was then judged by the files it left')
SIZES = dict(quick=150, thorough=6000)
STUBS = ['disk errors, full disk, short writes (LD_PRELOAD file layer over a real scratch directory)', 'web browser',
         'missing libraries (re-import with the library hidden)', 'entropy', 'clocks']
ERRS = ('EIO', 'ENOSPC', 'EACCES', 'EROFS', 'EMFILE', 'EDQUOT', 'EINTR', 'ENOENT', 'EFBIG', 'EPERM')


def gen(r, tier):
    out = r.choice(['png', 'png', 'png', 'html', 'html'])
    plan = dict(prop=ID, table=plots.gen_table(r), kw=plots.gen_kw(r, out))
    plan['kw']['auto_open'] = r.random() < 0.2
    sub = r.choice(['', 'out', 'out', 'new', 'new/er/dir', 'new', 'out/new'])
    name = r.choice(['p', 'p', 'plot.v1', 'a b', 'p.png', 'p.html'])
    plan['path'] = os.path.join(sub, name)
    plan['rel'] = r.choice([True, False, False])
    files = {'keep.txt': 'keep', 'out': None, 'out/keep.bin': 'x' * 300, 'out/p': 'no extension', 'p.txt': 'text',
             'out/p.%s' % ('html' if out == 'png' else 'png'): 'the other format'}
    if r.random() < 0.4 and not sub.startswith('new') and sub != 'out/new':
        files[plan['path'] + '.' + out] = r.choice(['short', 'y' * 400000])
    plan['files'] = files
    k = r.random()
    plan['libs'] = []
    plan['bad'] = None
    if k < 0.08:
        plan['bad'] = r.choice(['nopath', 'emptypath', 'format', 'dir', 'jupyter'])
        if plan['bad'] == 'dir':
            files[plan['path'] + '.' + out] = None
    elif k < 0.16:
        plan['libs'] = r.choice([['matplotlib'], ['plotly'], ['matplotlib', 'plotly'], ['IPython']])
    plan['fault_seed'] = r.randrange(1 << 30)
    plan['nf'] = 1 if plan['libs'] or plan['bad'] else r.choice([6, 8])
    plan['faults'] = None
    return plan


def target(plan):
    return plan['path'] + '.' + plan['kw']['output']


def attempt(plan, fault, d, healthy_after=False):
    """One plot call in a child over scratch directory d. Returns what it reported; the directory holds the rest."""
    S = shim.Shared()

    def child():
        common.setup_child('run')
        S.attach()
        common.setup_child('run')
        fp = boot.reload_plot_without(plan['libs']) if plan['libs'] else __import__(
            'anticipy.forecast_plot', fromlist=['x'])
        seen = [] if 'matplotlib' in plan['libs'] else plots.watch_figures()
        df = plots.table(plan['table'])
        kw = dict(plan['kw'])
        if plan['bad'] == 'format':
            kw['output'] = random.Random(plan['fault_seed']).choice(['pdf', 'PNG', '', None, 'htm'])
        elif plan['bad'] == 'jupyter':
            kw['output'] = 'jupyter'
            fp = boot.reload_plot_without(['IPython'])
        path = dict(nopath=None, emptypath='').get(plan['bad'], plan['path'])
        if path:
            path = path if plan['rel'] else os.path.join(d, path)
        os.chdir(d)
        rng.seed(plan['table']['seed'])
        L = shim.lib()
        lines = set()

        def call():
            del seams.browser[:]
            del seen[:]
            s = sim.Sim(lines=lines, cap=3000000)

            def body():
                try:
                    return ('rc', repr(fp.plot_forecast(df, path=path, **kw)))
                except Exception as e:
                    return ('err', type(e).__name__, str(e).replace(d, '')[:200])
            s.add('caller', body)
            s.run()
            t = s.tasks[0]
            if t.error is not None:
                raise t.error
            return dict(end=t.result, viol=s.violation, steps=t.steps, browser=list(seams.browser))
        budget = -1
        for f in fault or ():
            if f[0] == 'budget':
                budget = f[1]
            elif f[0] == 'peer':
                L.dst_peer(os.path.join(d, os.path.dirname(plan['path'])).encode())
                L.dst_fault(f[1], shim.KINDS[f[2]], 0, f[3])
            else:
                L.dst_fault(f[1], shim.KINDS[f[0]], f[2], f[3])
        L.dst_fs(1, 1, d.encode(), budget)
        o = call()
        L.dst_fs(0, 0, d.encode(), -1)
        if seen:
            o['fig'] = plots.mismatch_fig(df, plan['kw'], seen[-1])
        if healthy_after:
            o['files'] = plots.tree(d)
            o['again'] = call()
        o['lines'] = [common.lid(c, l) for c, l in lines]
        return o
    try:
        res = forkrun.fork(child)
        res['ops'], res['nops'], res['outside'] = S.read_log()
    finally:
        S.close()
    return res


def gen_faults(r, plan, ref):
    """Fault sets aimed at the file operations the undisturbed call performed."""
    ops = [e for e in ref['ops'] if e['op'] != 'OUTSIDE']
    size = max([1] + [e['off'] + e['len'] for e in ops if e['op'] == 'WRITE'])
    need = not os.path.dirname(plan['path']) in ('', 'out')
    out = []
    for _ in range(plan['nf']):
        k = r.choice(['err', 'err', 'err', 'err', 'short', 'budget', 'budget', 'dead', 'two', 'peer', 'peer'])
        if k == 'peer' and not need:
            k = r.choice(['err', 'budget'])
        if not ops:
            break

        def one(sticky=False, kinds=None):
            ty = r.choice(sorted({e['op'] for e in ops}))
            e = r.choice([e for e in ops if e['op'] == ty])
            er = r.choice(ERRS)
            if sticky and er == 'EINTR':
                er = 'EIO'
            return ['ERR', e['n'], getattr(errno, er), shim.STICKY | shim.ANY_LATER if sticky else 0]
        if k == 'err':
            fs = [one()]
        elif k == 'dead':
            fs = [one(True)]
        elif k == 'two':
            fs = [one(), one()]
        elif k == 'short':
            w = [e['n'] for e in ops if e['op'] == 'WRITE'] or [0]
            fs = [['SHORT', x, 0, 0] for x in sorted(r.sample(w, min(len(w), r.choice([1, 2, 4]))))]
        elif k == 'budget':
            fs = [['budget', r.choice([0, 1, 10, size // 2, size - 1, max(0, size - 10), r.randrange(size)])]]
        else:
            n = r.choice([e['n'] for e in ops if e['op'] in ('STAT', 'MKDIR', 'OPEN')] or [0])
            fs = [['peer', n, r.choice(['PEER_MKDIR', 'PEER_MKDIR', 'PEER_MKDIR', 'PEER_RMDIR']), 0]]
        out.append(fs)
    return out


def scratch(plan):
    d = tempfile.mkdtemp(prefix='dst-c13-')
    plots.fill(d, plan['files'])
    return d


def run(plan):
    o = dict(violations=[], stats={}, nontrivial=False, kinds={})
    lines = set()
    sig = []

    def once(fault, again):
        d = scratch(plan)
        try:
            before = plots.tree(d)
            res = attempt(plan, fault, d, again)
            after = plots.tree(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        lines.update(res['lines'])
        sig.append([e['op'] for e in res['ops']])
        sig.append(res['end'])
        common.stat(o, plot_calls=1 + bool(again), file_operations=res['nops'])
        return res, before, after
    ref, before, after = once(None, False)
    o['lines'] = sorted(lines)
    o['sig'] = repr(sig)
    v = judge(plan, None, ref, before, after, None, o)
    if v:
        o['violations'].append(v)
        plan['faults'] = []
        return o
    good = plots.norm(after.get(target(plan)))
    fl = plan['faults']
    r = random.Random(plan['fault_seed'])
    if fl is None:
        fl = gen_faults(r, plan, ref) if not plan['bad'] else []
        fl = [[f, r.random() < 0.4] for f in fl]
    if plan['bad'] or plan['libs']:
        o['nontrivial'] = True
        k = 'fault:' + ('missing-' + '+'.join(plan['libs']) if plan['libs'] else 'request-' + plan['bad'])
        o['kinds'][k] = 1
    if ref['end'][0] != 'rc' or ref['end'][1] != '0':
        fl = []
    for f, again in fl:
        res, before, after = once(f, again)
        hit = [e for e in res['ops'] if e['fault']]
        for e in hit:
            k = 'fault:%s-%s' % (e['fault'], e['op'])
            if e['fault'] == 'ERR':
                k += '-' + errno.errorcode.get(e['err'], '?')
            o['kinds'][k] = o['kinds'].get(k, 0) + 1
        if hit:
            o['nontrivial'] = True
            common.stat(o, calls_hit_by_faults=1)
        v = judge(plan, f, res, before, after, good, o, hit)
        if v:
            o['violations'].append(v)
            plan['faults'] = [[f, again]]
            break
    o['lines'] = sorted(lines)
    o['sig'] = repr(sig)
    return o


def judge(plan, fault, res, before, after, good, o, hit=()):
    df_t, tgt = plan['table'], target(plan)
    what = '%s plot to %s' % (plan['kw']['output'], plan['path'])
    if fault:
        what += ' under %s' % ', '.join(
            '%s at file operation %s (%s)' % (e['fault'] + ('/' + errno.errorcode.get(e['err'], '?') if e['err'] else ''),
                                              e['n'], e['op']) for e in hit[:3]) if hit else ''
    again = res.get('again')
    final = after
    if again:
        after = res['files']
    done = res['end'] == ('rc', '0')
    o['kinds']['end:' + ('reported-done' if done else res['end'][0])] = o['kinds'].get(
        'end:' + ('reported-done' if done else res['end'][0]), 0) + 1
    if res['viol']:
        return dict(cls='hung', msg='%s: the call does not end: %s' % (what, res['viol']))
    lib = dict(png='matplotlib', html='plotly')[plan['kw']['output']]
    if not fault and not plan['bad'] and lib not in plan['libs']:
        missing = plan['kw']['output'] == 'html' and os.path.dirname(plan['path']) not in ('', 'out')
        if not done and not missing:
            return dict(cls='refused', msg='%s: %s although nothing is wrong' % (what, res['end']))
    if not fault and (plan['bad'] or lib in plan['libs']):
        if res['end'][0] == 'rc' and res['end'][1] in ('0', 'None', 'False'):
            return dict(cls='false-success', msg='%s: returns %s although %s' % (
                what, res['end'][1], 'the request was unusable (%s)' % plan['bad'] if plan['bad'] else
                '%s is not installed' % lib))
    if plan['bad'] in ('format', 'jupyter', 'nopath', 'emptypath'):
        allowed = set()
    else:
        allowed = {tgt}
        p = os.path.dirname(tgt)
        while p:
            allowed.add(p)
            p = os.path.dirname(p)
    gone = any(e['fault'] == 'PEER_RMDIR' for e in hit)
    for a in (after, final):
        for k in sorted(set(before) | set(a)):
            if k in allowed and not (k in before and before[k] is None and a.get(k, 1) is not None):
                continue
            if gone and '.gone' in k:
                continue
            if before.get(k, 0) != a.get(k, 0):
                return dict(cls='other-file', msg='%s: %s %s' % (
                    what, k, 'was created' if k not in before else 'disappeared' if k not in a else 'was changed'))
    out = [e for e in res['ops'] if e['op'] == 'OUTSIDE']
    if res['outside']:
        return dict(cls='other-file', msg='%s: tried to modify %s' % (what, out[0]['path'] if out else 'a file elsewhere'))
    for c in (res, again):
        if c is None:
            continue
        if c['browser'] and not plan['kw']['auto_open']:
            return dict(cls='browser', msg='%s: opened %s in a browser unasked' % (what, c['browser'][0]))
        if c['end'] == ('rc', '0') and plan['kw']['auto_open'] and not any(
                os.path.basename(tgt).replace(' ', '%20') in b or os.path.basename(tgt) in b for b in c['browser']):
            return dict(cls='browser', msg='%s: the plot was not opened although asked for' % what)
    if done:
        data = after.get(tgt)
        if data is None:
            if gone and not any(e['fault'] == 'PEER_RMDIR' and e['op'] != 'STAT' for e in hit) or not gone:
                return dict(cls='false-success', msg='%s: reported as done, but there is no file' % what)
            return None
        if good is None:
            df = plots.table(df_t)
            if plan['kw']['output'] == 'html':
                m = plots.mismatch_html(df, plan['kw'], data)
            else:
                m = None if data.startswith(b'\x89PNG') and data.rstrip().endswith(b'IEND\xaeB`\x82') else \
                    'not a complete png file'
                m = m or res.get('fig')
            if m:
                return dict(cls='wrong-plot', msg='%s: does not show the table: %s' % (what, m))
        elif plots.norm(data) != good:
            return dict(cls='false-success', msg='%s: reported as done, but the file is not the plot (%d bytes instead '
                        'of %d)' % (what, len(data), len(good)))
    elif fault and hit and all(f[0] == 'peer' and f[2] == 'PEER_MKDIR' for f in fault):
        return dict(cls='peer', msg='%s: another process created the directory meanwhile: %s' % (what, res['end']))
    if again and not gone:
        if again['end'] != ('rc', '0'):
            return dict(cls='stuck', msg='%s: plotting again on a healthy disk: %s' % (what, again['end']))
        if plots.norm(final.get(tgt)) != good:
            return dict(cls='false-success', msg='%s: plotting again on a healthy disk writes another file' % what)
    return None


def shrink(plan, fails, budget):
    p = copy.deepcopy(plan)

    def tryp(mut):
        nonlocal p
        q = copy.deepcopy(p)
        mut(q)
        if budget() and fails(q):
            p = q
    for i in reversed(range(len(p['faults'][0][0]) if p['faults'] else 0)):
        if len(p['faults'][0][0]) > 1:
            tryp(lambda q: q['faults'][0][0].pop(i))
    if p['faults']:
        tryp(lambda q: q['faults'][0].__setitem__(1, False))
    for k, v in (('src', 1), ('pi', False), ('nan', False), ('weight', False), ('n', 5), ('fits', False),
                 ('shuffle', False)):
        if p['table'][k] != v:
            tryp(lambda q: q['table'].__setitem__(k, v))
    for k in sorted(p['files']):
        if k != 'out':
            tryp(lambda q: q['files'].pop(k))
    return p
