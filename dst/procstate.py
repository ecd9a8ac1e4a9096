"""The process-wide state a library call has to leave alone: snapshots, differences, and non-default starting points."""
import builtins
import decimal
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import time
import warnings

import numpy as np
import pandas as pd


def _options():
    from pandas._config import config
    out = {}

    def walk(d, pre):
        for k, v in d.items():
            if isinstance(v, dict):
                walk(v, pre + k + '.')
            else:
                out[pre + k] = v
    walk(config._global_config, '')
    return out


def fds():
    out = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            out[int(n)] = os.readlink('/proc/self/fd/' + n)
        except OSError:
            pass
    # installed libraries may keep resource files of theirs (fonts) open
    return {k: v for k, v in out.items() if '/proc/' not in v and not v.startswith(sys.prefix + '/')}


def _loggers(base=None):
    m = logging.root.manager
    out = {}
    for n, lg in [('', logging.root)] + sorted(m.loggerDict.items()):
        if base is not None and n not in base:
            continue
        if isinstance(lg, logging.Logger):
            out[n] = (lg.level, [id(h) for h in lg.handlers], [h.level for h in lg.handlers],
                      [id(h.formatter) for h in lg.handlers], [id(f) for f in lg.filters], lg.propagate, lg.disabled)
    return out


def _names(mod):
    return {k: id(v) for k, v in vars(mod).items() if not k.startswith('__')}


def snapshot():
    sig = {}
    for s in sorted(signal.valid_signals()):
        try:
            sig[int(s)] = repr(signal.getsignal(s))
        except (OSError, ValueError):
            pass
    um = os.umask(0)
    os.umask(um)
    s = {
        'numerical error handling': (sorted(np.geterr().items()), repr(np.geterrcall()), np.getbufsize()),
        'numpy print options': sorted((k, repr(v)) for k, v in np.get_printoptions().items()),
        'warning filters': [repr(f) for f in warnings.filters],
        'warning display': (id(warnings.showwarning), id(warnings.formatwarning), id(warnings._showwarnmsg_impl),
                            warnings.defaultaction),
        'pandas options': sorted((k, repr(v)) for k, v in _options().items()),
        'logging': _loggers(),
        'logging globals': (logging.root.manager.disable, logging.raiseExceptions, id(logging.lastResort),
                            id(logging.getLoggerClass()), logging._srcfile is None, id(logging.getLogRecordFactory())),
        'environment variables': dict(os.environ),
        'working directory': os.getcwd(),
        'file mode mask': um,
        'signal handlers': sig,
        'timers': signal.getitimer(signal.ITIMER_REAL),
        'open files': fds(),
        'threads': # (the simulator's own threads show as 'Dummy' if logging asks for their name)
                     sorted(t.name for t in threading.enumerate() if not t.name.startswith('Dummy-')),
        'standard streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        'hooks': (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.gettrace()),
                  id(sys.getprofile())),
        'interpreter limits': (sys.getrecursionlimit(), sys.getswitchinterval()),
        'garbage collection': (__import__('gc').isenabled(), __import__('gc').get_threshold()),
        'import path': (list(sys.path), [getattr(x, '__name__', type(x).__name__) for x in sys.meta_path if 'Six' not in type(x).__name__], sys.dont_write_bytecode),
        'arguments': list(sys.argv),
        'locale': locale.setlocale(locale.LC_ALL),
        'decimal context': repr(decimal.getcontext()),
        'time zone': (time.tzname, time.timezone),
        'socket timeout': socket.getdefaulttimeout(),
        'builtins': _names(builtins),
        'numpy namespace': _names(np),
        'random generator': (id(np.random.mtrand._rand), np.random.get_state()[0], id(random._inst)),
        'pandas namespace': _names(pd),
    }
    for m in ('pandas.core.frame', 'scipy.optimize', 'numpy.random'):
        if m in sys.modules:
            s[m + ' namespace'] = _names(sys.modules[m])
    s['DataFrame methods'] = _names(pd.DataFrame)
    if 'matplotlib' in sys.modules and 'matplotlib.pyplot' in sys.modules and sys.modules['matplotlib.pyplot']:
        import matplotlib
        plt = sys.modules['matplotlib.pyplot']
        s['open plot figures'] = list(plt.get_fignums())
        s['matplotlib options'] = sorted((k, repr(v)) for k, v in matplotlib.rcParams.items())
        s['matplotlib state'] = (matplotlib.get_backend(), matplotlib.is_interactive())
    if 'plotly.io' in sys.modules and sys.modules['plotly.io']:
        import plotly.io as pio
        s['plotly options'] = (pio.templates.default, pio.renderers.default)
    return s


def settle(before):
    """Let threads that have been told to end do so: only those that stay count."""
    import select
    for _ in range(300):      # (clocks are virtual here: the kernel's own relative waits are not)
        if not [t for t in threading.enumerate() if t.name not in before['threads'] and
                not t.name.startswith('Dummy-') and t is not threading.current_thread()]:
            return
        select.select([], [], [], 0.003)


def differences(a, b):
    """[(what, text)]; names that merely came into being through lazy imports do not count."""
    out = []
    for k in a:
        x, y = a[k], b.get(k)
        if k.endswith('namespace') or k in ('logging', 'DataFrame methods', 'builtins'):
            bad = sorted(n for n in x if n in y and x[n] != y[n]) + (sorted(n for n in x if n not in y))
            if bad:
                out.append((k, '%s: %s' % (k, ', '.join(map(str, bad[:3])))))
        elif x != y:
            out.append((k, '%s: %s' % (k, delta(x, y))))
    return out


def delta(x, y):
    if isinstance(x, dict) and isinstance(y, dict):
        d = [(k, x.get(k), y.get(k)) for k in sorted(set(x) | set(y), key=str) if x.get(k) != y.get(k)]
        return '; '.join('%s %r -> %r' % e for e in d[:3])[:300]
    if isinstance(x, list) and isinstance(y, list):
        gone, new = [e for e in x if e not in y], [e for e in y if e not in x]
        if not gone and not new:
            return 'order or number of entries changed (%d -> %d)' % (len(x), len(y))
        return ('was %s, is %s' % (gone[:3], new[:3]))[:300]
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return '; '.join(delta(p, q) for p, q in zip(x, y) if p != q)
    return ('was %r, is %r' % (x, y))[:300]


# ------------------------------------------------------------------------------------------ starting points
class Marker(logging.Handler):
    def emit(self, record):
        pass


def _handler(*a):
    pass


def gen(r):
    o = {}
    if r.random() < 0.7:
        o['np'] = [r.choice(['ignore', 'warn', 'call', 'ignore', 'warn', 'raise']) for _ in range(4)]
    if r.random() < 0.6:
        o['warn'] = r.choice(['error-user', 'always', 'default', 'once', 'ignore'])
    if r.random() < 0.6:
        o['log'] = [r.choice([5, 10, 20, 30, 50]), r.choice([0, 10, 40]), r.random() < 0.2, r.choice([0, 0, 10, 30])]
    if r.random() < 0.6:
        o['pd'] = [r.choice([7, 60, None]), r.choice([None, 'warn', 'raise']), r.choice([3, 6]), r.random() < 0.3]
    o['sig'] = r.random() < 0.6
    o['env'] = r.choice([None, 'x', 'y'])
    o['print'] = r.choice([None, 3, 8])
    o['misc'] = r.random() < 0.5
    o['rc'] = r.random() < 0.5
    o['umask'] = r.choice([None, 0o077, 0o002])
    return o


def apply(o):
    """Give the process the caller's own settings, so that a reset to defaults shows as well."""
    if 'np' in o:
        a = o['np']
        np.seterrcall(_handler)
        np.seterr(divide=a[0], over=a[1], under=a[2], invalid=a[3])
    if 'warn' in o:
        warnings.resetwarnings()
        warnings.simplefilter(o['warn'] if o['warn'] != 'error-user' else 'ignore')
        if o['warn'] == 'error-user':
            warnings.filterwarnings('error', category=UserWarning)
        warnings.filterwarnings('ignore', message='nothing like this')
        warnings.showwarning = _handler
    if 'log' in o:
        lv, lib, dis, glob = o['log']
        logging.root.addHandler(Marker())
        logging.root.setLevel(lv)
        for n in ('anticipy', 'anticipy.forecast', 'anticipy.forecast_models', 'matplotlib'):
            logging.getLogger(n).setLevel(lib)
        logging.getLogger('anticipy.forecast_models').disabled = dis
        logging.getLogger('anticipy.forecast').propagate = not dis
        logging.disable(glob)
    if 'pd' in o:
        a = o['pd']
        pd.set_option('display.max_rows', a[0])
        pd.set_option('mode.chained_assignment', a[1])
        pd.set_option('display.precision', a[2])
        pd.set_option('mode.use_inf_as_na', a[3])
    if o['sig'] and threading.current_thread() is threading.main_thread():
        for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1):
            signal.signal(s, _handler)
    if o['env']:
        os.environ['ANTICIPY'] = os.environ['DST_MARK'] = o['env']
    if o['print']:
        np.set_printoptions(precision=o['print'], suppress=True)
    if o['misc']:
        sys.setrecursionlimit(1234)
        decimal.getcontext().prec = 17
        socket.setdefaulttimeout(11)
    if o['umask'] is not None:
        os.umask(o['umask'])
    if 'matplotlib.pyplot' in sys.modules:
        # the style png plots select is selected beforehand: it is documented to stay
        import matplotlib.pyplot as plt
        plt.style.use('ggplot')
        if o['rc']:
            import matplotlib
            matplotlib.rcParams['svg.hashsalt'] = 'mine'
            matplotlib.rcParams['savefig.dpi'] = 55
            matplotlib.rcParams['date.autoformatter.day'] = '%d'
            matplotlib.rcParams['figure.max_open_warning'] = 0


# ------------------------------------------------------------------------------------------ random stream, I/O
def advanced(before, after, blocks=20000):
    """Can the generator state `after` be reached from `before` by drawing?"""
    if before[0] != after[0] or before[0] != 'MT19937':
        return before[0] == after[0]
    if np.array_equal(before[1], after[1]):
        return after[2] >= before[2]
    rs = np.random.RandomState()
    rs.set_state(before)
    rs.bytes(4 * (624 - before[2])) if before[2] < 624 else None
    for _ in range(blocks):
        rs.bytes(4)
        if np.array_equal(rs.get_state()[1], after[1]):
            return True
        rs.bytes(4 * 623)
    return False


IO = ('socket.', 'subprocess.', 'os.system', 'os.exec', 'os.posix_spawn', 'os.spawn', 'os.fork', 'os.forkpty', 'pty.',
      'os.mkdir', 'os.remove', 'os.rename', 'os.rmdir', 'os.truncate', 'os.chmod', 'os.chown', 'os.link', 'os.symlink',
      'os.utime', 'os.kill', 'shutil.', 'tempfile.', 'webbrowser.', 'ftplib.', 'urllib.', 'http.', 'smtplib.',
      'os.listdir', 'os.scandir', 'os.chdir', 'os.putenv', 'os.unsetenv', 'signal.', 'sqlite3.', 'mmap.')


def audit(sink, on, roots):
    """Report file, network and process activity to sink while on[0]. Reading installed code and data is allowed."""
    def hook(ev, args):
        if not on[0] or threading.get_ident() != on[0]:
            return
        if ev == 'open':
            p, mode, flags = (tuple(args) + (None, None, None))[:3]
            if isinstance(p, int):
                return
            p = os.path.abspath(os.fsdecode(p))
            wr = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
            if not wr and p.startswith(roots):
                return
            sink.append('opened %s%s' % (p, ' for writing' if wr else ''))
        elif ev.startswith(IO):
            if ev in ('os.listdir', 'os.scandir') and args and isinstance(args[0], (str, bytes)) and \
                    os.path.abspath(os.fsdecode(args[0])).startswith(roots):
                return
            sink.append('%s %s' % (ev, repr(args)[:120]))
    sys.addaudithook(hook)
