"""Run a function in a child forked from this (pristine) process and get its result back."""
import os
import pickle
import select
import signal
import sys
import time
import traceback


class ChildHang(Exception):
    """The child made no progress (blocked, no CPU) for a long time."""


class ChildSlow(Exception):
    """The child was still computing at the wall limit."""


class ChildDied(Exception):
    def __init__(self, status, data=b''):
        Exception.__init__(self, 'child ended with status %s' % status)
        self.status = status
        self.data = data


class HarnessError(Exception):
    pass


def _cpu(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            p = f.read().rsplit(')', 1)[1].split()
        return int(p[11]) + int(p[12])
    except Exception:
        return None


def _die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)
    except Exception:
        pass


def fork(fn, timeout=240, expect_death=False, idle=20, ticks=False):
    """Returns fn() computed in a forked child. Raises HarnessError if fn raised, ChildHang/ChildSlow/ChildDied."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            if ticks:
                _die_with_parent()
            null = os.open('/dev/null', os.O_WRONLY)
            os.dup2(null, 1)
            if not os.environ.get('DST_DEBUG'):
                os.dup2(null, 2)
            try:
                res = ('ok', fn())
            except BaseException:
                res = ('exc', traceback.format_exc())
            from dst import shim
            if shim.LIB is not None:
                shim.LIB.dst_attach(None)
            buf = pickle.dumps(res, protocol=4)
            view = memoryview(buf)
            while view:
                k = os.write(wfd, view)
                view = view[k:]
        except BaseException:
            code = 99
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    # under virtual clocks (ticks) time is counted in timeouts of select
    t0 = now = 0 if ticks else time.monotonic()
    last_cpu, last_t = None, t0
    try:
        while True:
            r, _, _ = select.select([rfd], [], [], 1.0)
            if r:
                b = os.read(rfd, 1 << 20)
                if not b:
                    break
                chunks.append(b)
                continue
            now = now + 1 if ticks else time.monotonic()
            c = _cpu(pid)
            if c != last_cpu:
                last_cpu, last_t = c, now
            if now - last_t > idle:
                os.kill(pid, signal.SIGKILL)
                raise ChildHang('no progress for %d s' % idle)
            if now - t0 > timeout:
                os.kill(pid, signal.SIGKILL)
                raise ChildSlow('still running after %d s' % timeout)
    finally:
        os.close(rfd)
        _, st = os.waitpid(pid, 0)
    data = b''.join(chunks)
    code = os.waitstatus_to_exitcode(st)
    if code != 0 or not data:
        if expect_death:
            return ('died', code)
        raise ChildDied(code)
    kind, val = pickle.loads(data)
    if kind == 'exc':
        raise HarnessError(val)
    return ('done', val) if expect_death else val
