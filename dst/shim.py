"""ctypes access to the LD_PRELOAD shim."""
import ctypes
import mmap
import os

_c = ctypes
LIB = None

TYPES = dict(OPEN=1, WRITE=2, CLOSE=3, FSYNC=4, RENAME=5, UNLINK=6, MKDIR=7, RMDIR=8, STAT=9, TRUNC=10, LINK=11,
             READ=12, CHMOD=13, OUTSIDE=14)
NAMES = {v: k for k, v in TYPES.items()}
KINDS = dict(ERR=1, SHORT=2, CRASH_BEFORE=3, CRASH_AFTER=4, CRASH_TORN=5, PEER_MKDIR=6, PEER_RMDIR=7)
KNAMES = {v: k for k, v in KINDS.items()}
KNAMES[100] = 'DISK_FULL'


class Entry(_c.Structure):
    _fields_ = [('n', _c.c_int32), ('type', _c.c_int32), ('fault', _c.c_int32), ('err', _c.c_int32),
                ('off', _c.c_int64), ('len', _c.c_int64), ('path', _c.c_char * 200), ('path2', _c.c_char * 200)]


def lib():
    global LIB
    if LIB is None:
        L = _c.CDLL(os.environ['LD_PRELOAD'])
        i, q, s = _c.c_int, _c.c_int64, _c.c_char_p
        L.dst_size.restype = _c.c_size_t
        L.dst_attach.argtypes = [_c.c_void_p]
        L.dst_peer.argtypes = [s]
        L.dst_fs.argtypes = [i, i, s, q]
        L.dst_fault.argtypes = [i, i, q, i]
        L.dst_clock.argtypes = [i, q, q, q]
        L.dst_advance.argtypes = [q]
        L.dst_step_wall.argtypes = [q]
        L.dst_jump_at_read.argtypes = [q, q]
        for n in ('dst_mono', 'dst_reads', 'dst_slept'):
            getattr(L, n).restype = q
        L.dst_log.argtypes = [i, _c.POINTER(Entry)]
        LIB = L
    return LIB


class Shared:
    """A shared-memory shim state that survives the death of the run child."""

    def __init__(self):
        self.m = mmap.mmap(-1, lib().dst_size())
        self.buf = (_c.c_char * len(self.m)).from_buffer(self.m)

    def attach(self):
        lib().dst_attach(_c.addressof(self.buf))

    def read_log(self):
        """Called in the parent after the child ended."""
        L = lib()
        L.dst_attach(_c.addressof(self.buf))
        out = log()
        n, outside = L.dst_nops(), L.dst_outside()
        L.dst_attach(None)
        return out, n, outside

    def close(self):
        del self.buf
        self.m.close()


def log(start=0):
    L = lib()
    out, e = [], Entry()
    for k in range(start, L.dst_nlog()):
        L.dst_log(k, e)
        out.append(dict(n=e.n, op=NAMES.get(e.type, '?'), fault=KNAMES.get(e.fault, '') if e.fault else '', err=e.err,
                        off=e.off, len=e.len, path=e.path.decode(errors='replace'),
                        path2=e.path2.decode(errors='replace')))
    return out


ANY_LATER = 1 << 30   # fires at the first matching operation with number >= op
STICKY = 1 << 29      # keeps firing


def mask(*types):
    m = 0
    for t in types:
        m |= 1 << TYPES[t]
    return m
