"""Pieces shared by the property modules."""
import random

from dst import boot, canon, forkrun, ops, rng, sim


def setup_child(key='run', clock=True):
    """First thing in every run child: deterministic entropy, virtual clocks."""
    from dst import shim
    rng.entropy(key)
    if clock:
        # 2021-03-01 12:00:00 UTC, monotonic clock at 10^6 s; time stands still unless the plan says otherwise
        shim.lib().dst_clock(1, 10 ** 15, 1614600000 * 10 ** 9 - 10 ** 15, 0)


def solo(plan, op, want_trace=False, mode=None, key='solo', catch=Exception):
    """Outcome of one operation executed alone in a pristine child (list of ops: executed in sequence)."""
    def child():
        setup_child(key)
        env = ops.Env(plan).prepare()
        if mode is not None:
            rng.mode[0] = mode() if callable(mode) else mode
        lines = set()
        s = sim.Sim(trace=want_trace, lines=lines)
        s.add('solo', lambda: ops.outcome(op, env, catch=catch))
        s.run()
        t = s.tasks[0]
        if t.error is not None:
            raise t.error
        tr = None
        if want_trace:
            tr = compress(s.trace)
        return dict(out=t.result, steps=t.steps, lines=[lid(c, l) for c, l in lines], trace=tr)
    return forkrun.fork(child)


def lid(code, line):
    return '%s:%s:%d' % (code.co_filename.rsplit('/', 1)[-1], code.co_name, line)


def compress(trace, per=12):
    """{line id: some of the task-local steps at which it executed} - at most `per` occurrences, spread."""
    occ = {}
    for i, k in enumerate(trace):
        occ.setdefault(k, []).append(i + 1)
    out = {}
    for (c, l), v in occ.items():
        if len(v) > per:
            step = len(v) / float(per)
            v = sorted({v[int(j * step)] for j in range(per)} | {v[0], v[-1]})
        out[lid(c, l)] = v
    return out


_hot = []
MUTATORS = {'append', 'add', 'clear', 'update', 'setdefault', 'pop', 'popitem', 'extend', 'insert', 'remove', 'discard',
            'sort', 'reverse', 'acquire', 'release', 'set', 'fill', 'put', 'move_to_end', 'setattr', 'rename'}


def hot():
    """Lines of instrumented code that can write to objects other threads may share."""
    if not _hot:
        import dis
        h = set()
        for c in sim.codes:
            line = None
            for i in dis.get_instructions(c):
                line = i.positions.lineno or line
                if i.opname in ('STORE_ATTR', 'STORE_GLOBAL', 'STORE_SUBSCR', 'STORE_SLICE', 'STORE_DEREF', 'DELETE_SUBSCR',
                                'DELETE_ATTR', 'DELETE_GLOBAL', 'BEFORE_WITH') or i.opname.startswith('LOAD_') and i.argval in MUTATORS:
                    h.add(lid(c, line))
        _hot.append(h)
    return _hot[0]


def pick_line(r, trace, phot=0.3):
    """A distinct line: one that may write to something shared, or uniformly over lines, or uniformly over functions
    first (short inner functions)."""
    ls = sorted(trace)
    if r.random() < phot:
        h = [l for l in ls if l in hot()]
        if h:
            return r.choice(h)
    if r.random() < 0.5:
        return r.choice(ls)
    fns = sorted({l.rsplit(':', 1)[0] for l in ls})
    f = r.choice(fns)
    return r.choice([l for l in ls if l.rsplit(':', 1)[0] == f])


def gen_switches(r, traces, steps, ntasks, kind=None):
    """Pre-emptions: [[task, local step, to], ...]. traces: per task {line: steps}; steps: per task total."""
    kind = kind or r.choice(['few', 'line', 'line', 'hot', 'hot', 'pair', 'gate', 'gate', 'many', 'rate'])
    sw = []

    def other(i):
        return r.choice([j for j in range(ntasks) if j != i])
    if kind == 'few':
        for _ in range(r.choice([1, 2, 3])):
            i = r.randrange(ntasks)
            sw.append([i, r.randint(1, max(1, steps[i])), other(i)])
    elif kind in ('line', 'pair', 'hot'):
        for _ in range(r.choice([1, 2, 3, 5] if kind != 'hot' else [1, 1, 2])):
            i = r.randrange(ntasks)
            if not traces[i]:
                continue
            ln = pick_line(r, traces[i], 1 if kind == 'hot' else 0.2)
            # before the line, or right after it (= before the next one)
            sw.append([i, r.choice(traces[i][ln]) + r.choice([0, 1]), other(i)])
            if kind == 'pair':
                j = sw[-1][2]
                if ln in traces[j]:
                    sw.append([j, r.choice(traces[j][ln]) + r.choice([0, 1]), other(j)])
    elif kind == 'gate':   # two threads meet at (nearly) the same place, the way they do under contention
        i = r.randrange(ntasks)
        j = other(i)
        both = {l: v for l, v in traces[i].items() if l in traces[j]}
        if both:
            ln = pick_line(r, both, 0.7)
            d0, d1 = r.choice([0, 0, 1]), r.choice([0, 0, 1, 1, 2])
            if r.random() < 0.45:     # in the same function, a few lines apart
                fn = ln.rsplit(':', 1)[0] + ':'
                l2 = r.choice(sorted(l for l in traces[j] if l.startswith(fn)))
                sw += [[i, r.choice(traces[i][ln]), j], [j, r.choice(traces[j][l2]), i]]
            elif r.random() < 0.5:      # the same occurrence, else any of them
                n = r.randrange(min(len(traces[i][ln]), len(traces[j][ln])))
                n = r.choice([n, -1, 0])
                sw += [[i, traces[i][ln][n] + d0, j], [j, traces[j][ln][n] + d1, i]]
            else:
                sw += [[i, r.choice(traces[i][ln]) + d0, j], [j, r.choice(traces[j][ln]) + d1, i]]
    elif kind == 'many':
        for _ in range(r.choice([20, 60])):
            i = r.randrange(ntasks)
            sw.append([i, r.randint(1, max(1, steps[i])), other(i)])
    else:  # rate: a burst of tight alternation
        i = r.randrange(ntasks)
        at = r.randint(1, max(1, steps[i]))
        for k in range(r.choice([30, 100])):
            for t in range(ntasks):
                b = at if t == i else r.randint(1, max(1, steps[t]))
                sw.append([t, b + k * r.choice([1, 2, 3]), other(t)])
    sw = [[a, b, c] for a, b, c in sorted({(a, b, c) for a, b, c in sw})]
    return sw, kind


def ddmin_list(items, test, budget):
    """Shrink a list while test(list) holds. budget: callable -> True while time remains."""
    n = 2
    while len(items) >= 1 and budget():
        size = max(1, len(items) // n)
        reduced = False
        for i in range(0, len(items), size):
            if not budget():
                return items
            cand = items[:i] + items[i + size:]
            if test(cand):
                items, n, reduced = cand, max(n - 1, 2), True
                break
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def stat(outcome, **kw):
    st = outcome.setdefault('stats', {})
    for k, v in kw.items():
        st[k] = st.get(k, 0) + v


def kinds_of(out):
    """A rough classification of an outcome, for evidence."""
    if out[0] == 'err':
        return 'error:' + out[1][1]
    return 'value'
