"""Batch driver: seeds -> plans -> runs on several workers; minimisation; replay files; evidence."""
import collections
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import time
import traceback

from dst import boot, forkrun

V = boot.VERIF


def prop_module(pid):
    return importlib.import_module('dst.props.' + pid.lower())


def plan_for(mod, seed, i, tier):
    r = random.Random('%s/%s/%d' % (mod.ID, seed, i))
    p = mod.gen(r, tier)
    p['run'] = i
    p['seed'] = seed
    return p


def setup(mod):
    if hasattr(mod, 'setup'):
        mod.setup()
        gc.collect()
        gc.freeze()


def known():
    f = os.path.join(V, 'known_findings.json')
    return json.load(open(f)) if os.path.exists(f) else dict(findings=[], fixed=[])


def is_known(pid, v, findings):
    for k in findings:
        if k.get('property') == pid and k.get('cls') == v.get('cls') and k.get('match', '\0') in v.get('msg', ''):
            return k
    return None


def worker(mod, seed, tier, w, nw, n, deadline, wfd):
    def send(m):
        b = pickle.dumps(m, protocol=4)
        b = len(b).to_bytes(8, 'little') + b
        while b:
            b = b[os.write(wfd, b):]
    for i in range(w, n, nw):
        if time.monotonic() > deadline:
            send(('cut', i))
            break
        p = plan_for(mod, seed, i, tier)
        t0 = time.monotonic()
        try:
            o = mod.run(p)
        except forkrun.ChildSlow as e:
            send(('slow', i, str(e)))
            continue
        except Exception:
            send(('harness', i, traceback.format_exc()))
            continue
        o['i'] = i
        o['wall'] = time.monotonic() - t0
        if o['violations']:
            o['plan'] = p
        elif i < 3 * nw and 'sample' not in o:
            o['sample'] = mod.sample(p) if hasattr(mod, 'sample') else brief(p)
        send(('run', o))
    send(('end', w))


def brief(p):
    s = json.dumps({k: v for k, v in p.items() if k not in ('data',)}, default=str)
    return s[:700]


def batch(mod, seed, tier, n, nw, wall, stop_on=1):
    """Run the batch. Returns (outcomes list, failures, harness errors, slow, cut)."""
    deadline = time.monotonic() + wall
    procs = {}
    for w in range(nw):
        r, wf = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for x in procs:
                    os.close(x)
                worker(mod, seed, tier, w, nw, n, deadline, wf)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wf)
        procs[r] = [pid, b'']
    outs, fails, harness, slow, cut = [], [], [], [], 0
    ended = 0
    while procs:
        rs, _, _ = select.select(list(procs), [], [], 5)
        for fd in rs:
            b = os.read(fd, 1 << 20)
            if not b:
                os.close(fd)
                os.waitpid(procs.pop(fd)[0], 0)
                continue
            procs[fd][1] += b
            buf = procs[fd][1]
            while len(buf) >= 8 and len(buf) >= 8 + int.from_bytes(buf[:8], 'little'):
                k = int.from_bytes(buf[:8], 'little')
                m = pickle.loads(buf[8:8 + k])
                buf = buf[8 + k:]
                if m[0] == 'run':
                    outs.append(m[1])
                    if m[1]['violations']:
                        fails.append(m[1])
                elif m[0] == 'harness':
                    harness.append(m[1:])
                elif m[0] == 'slow':
                    slow.append(m[1:])
                elif m[0] == 'cut':
                    cut += 1
                elif m[0] == 'end':
                    ended += 1
            procs[fd][1] = buf
        if len(fails) >= stop_on or len(harness) > 20:
            for fd in list(procs):
                try:
                    os.kill(procs[fd][0], signal.SIGTERM)
                except OSError:
                    pass
            _kill_tree([procs[fd][0] for fd in procs])
            for fd in list(procs):
                os.waitpid(procs.pop(fd)[0], 0)
                os.close(fd)
            ended = nw
            break
    if ended < nw:
        harness.append((-1, '%d worker(s) ended prematurely' % (nw - ended)))
    return outs, fails, harness, slow, cut


def _kill_tree(pids):
    """Kill run children of our own workers (they are in our process group's children)."""
    for p in pids:
        try:
            with open('/proc/%d/task/%d/children' % (p, p)) as f:
                kids = [int(x) for x in f.read().split()]
        except Exception:
            kids = []
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass
        for k in kids:
            try:
                os.kill(k, signal.SIGKILL)
            except OSError:
                pass


def classes(o):
    return {v['cls'] for v in o['violations']}


def minimise(mod, plan, cls, secs):
    t_end = time.monotonic() + secs
    tries = [0]

    def budget():
        return time.monotonic() < t_end

    def fails(p):
        tries[0] += 1
        try:
            o = mod.run(json.loads(json.dumps(p)))
        except Exception:
            return False
        return cls in classes(o)
    p = json.loads(json.dumps(plan))
    if hasattr(mod, 'shrink'):
        try:
            q = mod.shrink(p, fails, budget)
            if fails(q):
                p = q
        except Exception:
            traceback.print_exc()
    return p, tries[0]


def replay_file(pid, plan, viol, seed, tries):
    d = os.path.join(V, 'replays')
    os.makedirs(d, exist_ok=True)
    body = dict(property=pid, seed=seed, run=plan.get('run'), violation=viol, plan=plan, minimisation_runs=tries)
    s = json.dumps(body, indent=1, sort_keys=True, default=str)
    path = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha256(s.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(s)
    return path


def confirm(path):
    """Replay in a fresh interpreter. True if the same violation class shows again."""
    p = subprocess.run([boot.PY, '-B', os.path.join(V, 'replay.py'), path], env=boot.sim_env(DST_BOOTED='0'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    return p.returncode == 1, p.stdout.decode(errors='replace')


def check(pid, tier, seed):
    t0 = time.monotonic()
    mod = prop_module(pid)
    boot.load(plots=getattr(mod, 'PLOTS', False))
    nw = int(os.environ.get('DST_WORKERS', '8'))
    n = int(os.environ.get('DST_RUNS', 0)) or mod.SIZES[tier]
    wall = dict(quick=getattr(mod, 'WALL_QUICK', 150), thorough=1500)[tier]
    load_s = time.monotonic() - t0
    setup(mod)
    outs, fails, harness, slow, cut = batch(mod, seed, tier, n, nw, wall)
    extra_viol = []
    kn = known()['findings']
    status = 0
    lines = []
    reported = 0
    unconfirmed = []
    fails.sort(key=lambda o: o['i'])
    seen_known = set()
    for o in fails:
        vs = []
        for v in o['violations']:
            k = is_known(pid, v, kn)
            if k:
                if k['id'] not in seen_known:
                    seen_known.add(k['id'])
                    print('KNOWN-FINDING: property=%s %s' % (pid, k['what']), flush=True)
            else:
                vs.append(v)
        if not vs or reported >= 1:
            continue
        v = vs[0]
        print('run %d (seed %s): %s' % (o['i'], seed, v['msg']), flush=True)
        p, tries = minimise(mod, o['plan'], v['cls'], 60 if tier == 'quick' else 240)
        ok = False
        for cand in (p, o['plan']):
            v2 = v
            try:
                oo = mod.run(json.loads(json.dumps(cand)))
                v2 = next((x for x in oo['violations'] if x['cls'] == v['cls']), v)
            except Exception:
                pass
            path = replay_file(pid, cand, v2, seed, tries)
            ok, text = confirm(path)
            if ok:
                break
        if ok:
            print('violation: %s' % v2['msg'])
            print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
            reported += 1
            status = 1
        else:
            unconfirmed.append((o['i'], v, text[-2000:]))
    if unconfirmed and not reported:
        print('ERROR: %d failing run(s) did not replay in a fresh process:' % len(unconfirmed))
        for u in unconfirmed[:3]:
            print(u)
        status = 3
    if harness and not reported:
        print('ERROR: harness failures: %d' % len(harness))
        for h in harness[:3]:
            print(h[0], h[1][-3000:])
        status = 3
    if slow and not reported:
        print('slow runs (not counted): %s' % [s[0] for s in slow])
        if len(slow) > max(2, n // 50):
            status = 3
    if status == 0 and not outs:
        print('ERROR: nothing was explored')
        status = 3
    wall_s = time.monotonic() - t0
    evidence(mod, pid, tier, seed, outs, fails, reported, harness, slow, cut, n, wall_s, load_s)
    print('%s %s: %d/%d runs, %.0f s, %s' % (pid, tier, len(outs), n, wall_s,
                                            'no violation' if status == 0 else 'exit %d' % status), flush=True)
    return status


def evidence(mod, pid, tier, seed, outs, fails, reported, harness, slow, cut, n, wall_s, load_s):
    stats, kinds, lines, sigs = collections.Counter(), collections.Counter(), set(), set()
    samples = []
    nontriv = 0
    simtime = 0.0
    for o in sorted(outs, key=lambda o: o['i']):
        stats.update(o.get('stats', {}))
        kinds.update(o.get('kinds', {}))
        lines.update(o.get('lines', ()))
        simtime += o.get('simtime', 0.0)
        if o.get('sig'):
            sigs.add(hashlib.sha256(o['sig'].encode()).hexdigest()[:16])
        nontriv += bool(o.get('nontrivial'))
        if 'sample' in o and len(samples) < 4:
            samples.append(o['sample'])
    faults = {k[6:]: v for k, v in kinds.items() if k.startswith('fault:')}
    ev = dict(
        property=pid, tier=tier, seed=seed,
        coverage=dict(
            evaluations=len(outs), distinct_nontrivial=min(nontriv, max(len(sigs), 1) if sigs else nontriv),
            rule=mod.RULE, samples=samples,
            planned_runs=n, seeds='VERIF_SEED=%s, runs 0..%d' % (seed, n - 1),
            runs_per_hour=round(3600.0 * len(outs) / max(wall_s, 1e-6)),
            simulated_seconds=round(simtime, 3),
            faults_injected=faults, workload={k: v for k, v in sorted(kinds.items()) if not k.startswith('fault:')},
            counters=dict(stats), distinct_interleavings_or_fault_traces=len(sigs),
            library_lines_reached=len({l for l in lines}),
            cut_by_wall_clock=bool(cut), slow_runs=len(slow), harness_failures=len(harness),
            real=getattr(mod, 'REAL', ['anticipy', 'numpy', 'scipy', 'pandas', 'CPython']),
            stubbed=getattr(mod, 'STUBS', []), startup_s=round(load_s, 2)),
        wall_s=round(wall_s, 2), violations=reported,
        assumptions=getattr(mod, 'ASSUMPTIONS', [
            'pre-emption and interrupt points are source lines of the library; third-party code between two such '
            'lines is atomic', 'seeded sampling: a clean batch is evidence, not proof']))
    d = os.path.join(V, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
