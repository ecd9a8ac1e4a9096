"""Process set-up: environment, LD_PRELOAD shim, simulator locks, instrumented import of the library.

`reexec()` makes sure the interpreter runs under the shim with a fixed environment; `load()` imports the library from
the working tree with every code object instrumented. Nothing of the library is *called* by either.
"""
import hashlib
import os
import subprocess
import sys
import types

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('DST_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
TOOL = 2


def build_shim():
    src = os.path.join(HERE, 'shim.c')
    with open(src, 'rb') as f:
        h = hashlib.sha256(f.read()).hexdigest()[:12]
    d = os.path.join(VERIF, 'build')
    so = os.path.join(d, 'shim-%s.so' % h)
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        tmp = '%s.%d.tmp' % (so, os.getpid())
        subprocess.run(['gcc', '-O1', '-w', '-fPIC', '-shared', '-o', tmp, src, '-ldl'], check=True)
        os.replace(tmp, so)
    return so


def sim_env(**over):
    env = {k: v for k, v in os.environ.items()
           if k in ('PATH', 'HOME', 'VERIF_SEED', 'VERIF_TIER', 'DST_REPO', 'DST_WORKERS', 'LANG', 'LC_ALL', 'TMPDIR')
           or k.startswith('DST_')}
    env.update(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONHASHSEED='0', TZ='UTC',
               MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', DST_BOOTED='1', PYTHONPATH=VERIF)
    cfg = '/opt/venv/mplconfig'
    if not os.path.isdir(cfg):
        cfg = os.path.join(VERIF, 'build', 'mplconfig')
        os.makedirs(cfg, exist_ok=True)
    env['MPLCONFIGDIR'] = cfg
    env['LD_PRELOAD'] = build_shim()
    env.update(over)
    return env


def reexec():
    if os.environ.get('DST_BOOTED') == '1' and os.environ.get('LD_PRELOAD'):
        return
    env = sim_env()
    os.execve(PY, [PY, '-B'] + sys.argv, env)


# ------------------------------------------------------------------------------------------------------------------
_loaded = {}


def instrument(code):
    """Switch on LINE events for a code object and everything nested in it."""
    from dst import sim
    mon = sys.monitoring
    mon.set_local_events(TOOL, code, mon.events.LINE)
    sim.codes.append(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            instrument(c)


class _Loader:
    def __init__(self, path, is_pkg, name):
        self.path, self.is_pkg, self.name = path, is_pkg, name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from dst import sim
        with open(self.path, 'rb') as f:
            src = f.read()
        code = compile(src, self.path, 'exec')
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                instrument(c)
        if os.environ.get('DST_REALSET') != '1':
            module.__dict__['set'] = sim.SimSet
            module.__dict__['id'] = sim.sim_id
        exec(code, module.__dict__)

    def get_source(self, name):
        with open(self.path) as f:
            return f.read()


class _Finder:
    """Loads `anticipy` and its submodules (and instrumented harness models) from source."""

    @staticmethod
    def find_spec(name, path=None, target=None):
        import importlib.util
        if name == 'anticipy':
            p = os.path.join(REPO, 'anticipy', '__init__.py')
            return importlib.util.spec_from_file_location(
                name, p, loader=_Loader(p, True, name), submodule_search_locations=[os.path.dirname(p)])
        if name.startswith('anticipy.'):
            base = os.path.join(REPO, *name.split('.'))
            if os.path.exists(base + '.py'):
                return importlib.util.spec_from_file_location(name, base + '.py',
                                                              loader=_Loader(base + '.py', False, name))
            p = os.path.join(base, '__init__.py')
            if os.path.exists(p):
                return importlib.util.spec_from_file_location(
                    name, p, loader=_Loader(p, True, name), submodule_search_locations=[os.path.dirname(p)])
        return None


def load(plots=False):
    """Import everything. After this the process is 'pristine': the library is loaded, nothing of it was called."""
    if _loaded:
        return
    _loaded['x'] = True
    from dst import sim  # patches locks before anything else is imported
    sim.install_locks()
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.raiseExceptions = False
    import numpy as np
    import scipy.optimize
    import pandas as pd
    from dst import rng
    rng.install()
    if plots:
        import matplotlib.pyplot as plt
        import plotly
        import plotly.offline
        import plotly.graph_objs
        import plotly.subplots
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'dst')
    mon.register_callback(TOOL, mon.events.LINE, sim.on_line)
    sys.meta_path.insert(0, _Finder)
    import anticipy.forecast
    import anticipy.forecast_models
    import anticipy.model_utils
    if plots:
        import anticipy.forecast_plot
    from dst import seams
    seams.install()
    _warm(np, pd, scipy)
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()


def _warm(np, pd, scipy):
    """Third-party lazy initialisation (no library calls), so that forks are cheap."""
    df = pd.DataFrame({'date': pd.date_range('2020-01-01', periods=30), 'x': np.arange(30), 'y': np.arange(30.)})
    df.merge(df[['x', 'y']], how='left').sort_values('x').drop_duplicates('x').reset_index(drop=True)
    df.assign(w=df.date.dt.weekday).groupby('w', as_index=False).apply(lambda d: d.assign(z=d.y.shift(1)))
    df.set_index('date').asfreq('D').interpolate()
    df.set_index('date').y.resample('M').agg([np.mean])
    pd.concat([df, df], sort=False, ignore_index=True)
    st = np.random.get_state()
    df.y.sample(5, replace=True)
    np.random.set_state(st)
    np.percentile(np.arange(10.), 5, axis=0)
    scipy.optimize.least_squares(lambda p: p - np.arange(2.), np.zeros(2), x_scale='jac', method='trf')
    scipy.optimize.least_squares(lambda p: p - np.arange(2.), np.zeros(2), x_scale='jac', method='trf',
                                 bounds=([-5, -5], [5, 5]))
    str(df.y.dtype), np.array_str(np.arange(3.), precision=1)


def reload_plot_without(missing):
    """Re-import forecast_plot as in an installation that lacks the named libraries (run children only)."""
    import importlib
    for k in list(sys.modules):
        if k == 'anticipy.forecast_plot':
            del sys.modules[k]
    import anticipy
    if hasattr(anticipy, 'forecast_plot'):
        delattr(anticipy, 'forecast_plot')
    for m in missing:
        for k in list(sys.modules):
            if k == m or k.startswith(m + '.'):
                sys.modules[k] = None
        sys.modules[m] = None
        if m == 'matplotlib':
            sys.modules['matplotlib.pyplot'] = None
    return importlib.import_module('anticipy.forecast_plot')


def load_app():
    """Import the command-line application (run children only); its set-up of logging goes nowhere."""
    import logging
    logging.getLogger().addHandler(logging.NullHandler())
    import importlib
    return importlib.import_module('anticipy.app')
