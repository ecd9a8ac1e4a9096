"""Scheduler: real threads, parked and released one at a time at source lines of the library.

A Sim owns a list of tasks. Exactly one task runs at any instant; every LINE event of instrumented code is a point at
which the simulator may switch to another task, raise an exception in the running one, kill the process, or let an
observer look at the state. All decisions come from the plan: task-local step numbers.
"""
import _thread
import dis
import os
import random
import sys
import threading
import weakref

codes = []          # all instrumented code objects
cur = None          # the active Sim
_get_ident = _thread.get_ident
INF = 1 << 60


class SimAbort(BaseException):
    """Unwinds a task when the simulation has already been decided (deadlock, step cap)."""


class Stuck(Exception):
    pass


# ------------------------------------------------------------------------------------------------ sets
class _SimSetMeta(type(set)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_set)

    def __subclasscheck__(cls, c):
        return issubclass(c, _real_set)


_real_set = set
set_order = [None]     # None: insertion order; int: seeded permutation; 'rev': reversed


class SimSet(_real_set, metaclass=_SimSetMeta):
    """A set whose iteration order is decided by the simulator (by default: insertion order)."""

    def __new__(cls, *a):
        return _real_set.__new__(cls)

    def __init__(self, it=()):
        it = list(it)
        _real_set.__init__(self, it)
        self._ord = it

    def _order(self):
        seen, out = _real_set(), []
        for x in getattr(self, '_ord', ()):
            if _real_set.__contains__(self, x) and x not in seen:
                seen.add(x)
                out.append(x)
        if len(out) != _real_set.__len__(self):
            for x in _real_set.__iter__(self):
                if x not in seen:
                    seen.add(x)
                    out.append(x)
        o = set_order[0]
        if o == 'rev':
            out.reverse()
        elif o is not None:
            random.Random((o, len(out)).__repr__()).shuffle(out)
        return out

    def __iter__(self):
        return iter(self._order())

    def add(self, x):
        _real_set.add(self, x)
        self.__dict__.setdefault('_ord', []).append(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def pop(self):
        o = self._order()
        if not o:
            raise KeyError('pop from an empty set')
        _real_set.discard(self, o[0])
        return o[0]


def _ssop(name):
    real = getattr(_real_set, name)

    def f(self, *others):
        r = real(self, *others)
        if r is NotImplemented:
            return r
        s = SimSet()
        keep = list(self._order())
        for o in others:
            if isinstance(o, _real_set) or hasattr(o, '__iter__'):
                keep += [x for x in o]
        _real_set.update(s, r)
        s._ord = [x for x in keep if _real_set.__contains__(s, x)]
        return s
    return f


for _n in ('__or__', '__and__', '__sub__', '__xor__', 'union', 'intersection', 'difference', 'symmetric_difference',
           'copy'):
    setattr(SimSet, _n, _ssop(_n))


# ------------------------------------------------------------------------------------------------ identity
class Ids:
    """id() as the library sees it. An identity is unique among living objects only: the simulator gives the identity
    of the last object of a type that died to the next one that is asked for (what a real allocator may do any time)."""

    def __init__(self):
        self.live, self.free, self.n, self.reused = {}, {}, 1 << 60, 0

    def __call__(self, o):
        k = id(o)
        e = self.live.get(k)
        if e is not None and e[0]() is o:
            return e[1]
        t = type(o)
        try:
            w = weakref.ref(o, lambda w: self.died(k, w, t))
        except TypeError:
            return k
        pool = self.free.get(t)
        if pool:
            s = pool.pop()
            self.reused += 1
        else:
            self.n += 16
            s = self.n
        self.live[k] = (w, s)
        return s

    def died(self, k, w, t):
        e = self.live.get(k)
        if e is not None and e[0] is w:
            del self.live[k]
            self.free.setdefault(t, []).append(e[1])


sim_id = Ids()

# ------------------------------------------------------------------------------------------------ locks
_real_lock = _thread.allocate_lock


class SimLock:
    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        s = cur
        if s is None or not s.mine():
            return self._l.acquire(True, timeout)
        while not self._l.acquire(False):
            if not s.block(self, timeout):
                return False
        return True

    def release(self):
        self._l.release()
        s = cur
        if s is not None:
            s.wake(self)

    def locked(self):
        return self._l.locked()

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l._at_fork_reinit()


def install_locks():
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = None
    import queue
    if hasattr(queue, '_PySimpleQueue'):
        queue.SimpleQueue = queue._PySimpleQueue
    _real_start = threading.Thread.start

    def start(self):
        s = cur
        if s is None or not s.mine():
            return _real_start(self)
        # a thread started by the library becomes one more simulated task
        s.spawn_thread(self)

    _real_join = threading.Thread.join

    def join(self, timeout=None):
        t = getattr(self, '_dst_task', None)
        s = cur
        if t is None or s is None or not s.mine():
            return _real_join(self, timeout)
        while not t.done:
            if not s.block(t, -1 if timeout is None else timeout):
                return

    _real_alive = threading.Thread.is_alive

    def is_alive(self):
        t = getattr(self, '_dst_task', None)
        return (not t.done) if t is not None else _real_alive(self)
    threading.Thread.start, threading.Thread.join, threading.Thread.is_alive = start, join, is_alive


# ------------------------------------------------------------------------------------------------ tasks
class Task:
    __slots__ = ('name', 'fn', 'idx', 'sem', 'steps', 'next', 'events', 'ei', 'done', 'waiting', 'timed', 'result',
                 'error', 'ident', 'rng', 'marks', 'timed_out', 'lib')

    def __init__(self, name, fn, idx):
        self.name, self.fn, self.idx = name, fn, idx
        self.sem = _real_lock()
        self.sem.acquire()
        self.steps, self.next, self.events, self.ei = 0, INF, [], 0
        self.done, self.waiting, self.timed, self.timed_out = False, None, False, False
        self.lib = False
        self.result = self.error = None
        self.ident = None
        self.rng = None
        self.marks = []


class Sim:
    """events: per task list of (local_step, kind, arg), sorted by step.
    kinds: 'switch' (arg = task index), 'raise' (arg = exception factory), 'exit', 'call' (arg = function)."""

    def __init__(self, cap=40_000_000, trace=False, lines=None, first_seen=None):
        self.tasks = []
        self.current = None
        self.total = 0
        self.cap = cap
        self.trace = [] if trace else None
        self.lines = lines            # set collecting distinct (code, line)
        self.first_seen = first_seen  # observer called on the first execution of a distinct line
        self.quiet = False
        self.guard = False            # spare clean-up code from interrupts
        self.switches = []            # executed switches: (task, local step, to, where)
        self.injected = []            # executed injections
        self.violation = None
        self.alldone = _real_lock()
        self.alldone.acquire()
        self.dead = False
        self.swap = None              # (save, restore) of per-task process-wide state, e.g. RNG
        self.blocked_n = 0

    # -- construction
    def add(self, name, fn, events=()):
        t = Task(name, fn, len(self.tasks))
        t.events = sorted(events, key=lambda e: e[0])
        self._arm(t)
        self.tasks.append(t)
        return t

    def _arm(self, t):
        t.next = t.events[t.ei][0] if t.ei < len(t.events) else INF

    def mine(self):
        t = self.current
        return t is not None and t.ident == _get_ident()

    # -- run
    def run(self):
        global cur
        assert cur is None
        for t in self.tasks:
            _thread.start_new_thread(self._main, (t,))
        cur = self
        self.total = 0
        if self.swap:
            base = self.swap[0]()
            for t in self.tasks:
                if t.rng is None:
                    t.rng = base
        self.current = self.tasks[0]
        self._resume(self.tasks[0])
        self.alldone.acquire()
        cur = None
        return self

    def _resume(self, t):
        if self.swap and t.rng is not None:
            self.swap[1](t.rng)
        t.sem.release()

    def _main(self, t):
        t.ident = _get_ident()
        t.sem.acquire()
        try:
            if not self.dead:
                t.result = t.fn()
        except SimAbort:
            t.error = None
        except BaseException as e:  # a harness-level task function must catch what it expects
            t.error = e
        t.done = True
        self.wake(t)
        self._next_after(t)

    def runnable(self, exclude=None):
        return [t for t in self.tasks if not t.done and t.waiting is None and t is not exclude]

    def _next_after(self, t):
        r = self.runnable(t)
        if not r:
            rest = [x for x in self.tasks if not x.done]
            timed = [x for x in rest if x.timed]
            if timed:
                timed[0].waiting, timed[0].timed_out = None, True
                r = timed[:1]
            elif rest and all(x.lib for x in rest):
                # every caller is done; idle threads of the library (a pool) stay parked
                self.current = None
                self.alldone.release()
                return
            elif rest:
                self._deadlock(rest)
                r = [rest[0]]
                r[0].waiting = None
            else:
                self.current = None
                self.alldone.release()
                return
        self.current = r[0]
        self._resume(r[0])

    def _deadlock(self, rest):
        if self.violation is None:
            self.violation = ('deadlock', [x.name for x in rest])
        self.dead = True

    def _switch(self, t, to):
        """Called in t's thread: park t, run `to`."""
        if self.swap:
            t.rng = self.swap[0]()
        self.current = to
        self._resume(to)
        t.sem.acquire()
        # resumed (state already restored by _resume)
        if self.dead:
            t.next = 0
            raise SimAbort()

    def block(self, what, timeout=-1):
        """The current task waits for `what` (a SimLock or Task). False: timed out."""
        t = self.current
        if self.dead:
            raise SimAbort()
        self.blocked_n += 1
        t.waiting, t.timed, t.timed_out = what, timeout is not None and timeout >= 0, False
        r = self.runnable()
        if not r:
            timed = [x for x in self.tasks if not x.done and x.timed]
            if timed:
                x = timed[0]
                x.waiting, x.timed_out, x.timed = None, True, False
                if x is t:
                    return False
                self._switch(t, x)
                t.timed = False
                return not t.timed_out
            self._deadlock([x for x in self.tasks if not x.done])
            t.waiting = None
            raise SimAbort()
        self._switch(t, r[0])
        t.timed = False
        return not t.timed_out

    def wake(self, what):
        for t in self.tasks:
            if t.waiting is what:
                t.waiting = None

    def spawn_thread(self, th):
        def body():
            th._started.set()
            try:
                th.run()
            finally:
                th._is_stopped = True
        t = Task('lib-thread-%s' % th.name, body, len(self.tasks))
        t.lib = True
        t.rng = self.swap[0]() if self.swap else None
        self.tasks.append(t)
        th._dst_task = t
        _thread.start_new_thread(self._main, (t,))

    # -- the instrumented line
    def line(self, code, lineno):
        t = self.current
        if t is None or t.ident != _get_ident() or self.quiet:
            return
        n = t.steps = t.steps + 1
        if self.trace is not None:
            self.trace.append((code, lineno))
        if self.lines is not None:
            k = (code, lineno)
            if k not in self.lines:
                self.lines.add(k)
                if self.first_seen is not None:
                    self.quiet = True
                    try:
                        self.first_seen(t, code, lineno)
                    finally:
                        self.quiet = False
        self.total += 1
        if n >= t.next or self.total >= self.cap:
            self._event(t, n, code, lineno)

    def _event(self, t, n, code, lineno):
        if self.dead:
            raise SimAbort()
        if self.total >= self.cap:
            self.violation = ('step-cap', [t.name, '%s:%d' % (code.co_name, lineno)])
            self.dead = True
            raise SimAbort()
        where = '%s:%s:%d' % (os.path.basename(code.co_filename), code.co_name, lineno)
        while t.ei < len(t.events) and t.events[t.ei][0] <= n:
            _, kind, arg = t.events[t.ei]
            t.ei += 1
            self._arm(t)
            if kind == 'switch':
                r = self.runnable(t)
                if not r:
                    continue
                to = next((x for x in r if x.idx == arg), None) or r[0]
                self.switches.append((t.idx, n, to.idx, where))
                self._switch(t, to)
            elif kind == 'raise':
                if not may_raise() or leaves_with(code) or self.guard and cleaning_up(code, lineno):
                    # strike at the next line instead
                    t.events.insert(t.ei, (n + 1, kind, arg))
                    self._arm(t)
                    return
                e = arg()
                self.injected.append((t.idx, n, type(e).__name__, where))
                raise e
            elif kind == 'exit':
                self.injected.append((t.idx, n, 'kill', where))
                os._exit(113)
            elif kind == 'call':
                self.quiet = True
                try:
                    arg(t, n, where)
                finally:
                    self.quiet = False


NO_RAISE = {'__eq__', '__ne__', '__hash__', '__lt__', '__str__', '__repr__', '__format__', '__del__'}


def may_raise():
    """Interrupts striking inside a comparison/hash/format callback, or while a log record is formatted, are swallowed
    by code of other libraries (pandas' hash table, logging): no claim is made for those instants."""
    f = sys._getframe(1)
    while f is not None:
        c = f.f_code
        if c.co_name in NO_RAISE or c.co_filename.endswith('/logging/__init__.py'):
            return False
        f = f.f_back
    return True


_clean = {}


def _cleanup_lines(fname):
    """(lines of finally bodies and exception handlers, lines at which a try statement starts)"""
    if fname not in _clean:
        import ast
        body, start = set(), set()
        with open(fname) as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, ast.Try):
                start.add(n.lineno)
                for x in list(n.finalbody) + list(n.handlers):
                    body.update(range(x.lineno, x.end_lineno + 1))
        _clean[fname] = (body, start)
    return _clean[fname]


def cleaning_up(code, lineno):
    """Is a finally body, an exception handler, an __enter__ or an __exit__ in progress, or a try statement about to
    begin? What interrupts do to clean-up itself is no one's promise."""
    if lineno in _cleanup_lines(code.co_filename)[1]:
        return True
    f = sys._getframe(1)
    while f is not None:
        c = f.f_code
        if c.co_name in ('__enter__', '__exit__', '__del__'):
            return True
        if c in codes and f.f_lineno in _cleanup_lines(c.co_filename)[0]:
            return True
        f = f.f_back
    return False


_LOAD_CONST, _CALL, _SWAP = dis.opmap['LOAD_CONST'], dis.opmap['CALL'], dis.opmap['SWAP']


def leaves_with(code):
    """Is the line event in `code`'s frame the one on the normal way out of a `with` block? An exception raised there
    (before the call of __exit__) would skip the clean-up, which no interrupt of a real interpreter can do: signals are
    only delivered where the interpreter polls for them, and it doesn't poll between the block and that call."""
    f = sys._getframe(1)
    while f is not None and f.f_code is not code:
        f = f.f_back
    if f is None:
        return False
    b, i, none = code.co_code, f.f_lasti, code.co_consts.index(None) if None in code.co_consts else -1
    if i < len(b) and b[i] == _SWAP:
        i += 2
    return b[i:i + 8] == bytes([_LOAD_CONST, none & 255] * 3 + [_CALL, 2]) if none >= 0 else False


def on_line(code, lineno):
    s = cur
    if s is not None:
        s.line(code, lineno)
