"""Solver, model-name and environment seams (used inside run children only)."""
import sys

import numpy as np

browser = []
cand = {'name': None, 'depth': 0, 'fit': {}}   # candidate being evaluated; number of solver runs per candidate
svd_hook = [None]
on_start = [None]     # called with the number of residuals when a solver run starts
on_solver = [None]    # called with True/False when a solver run starts/ends
fired = []


def install():
    """Called once at boot; only the browser stub (no library behaviour is touched)."""
    import webbrowser

    def _open(url, *a, **k):
        browser.append(str(url))
        return True
    for n in ('open', 'open_new', 'open_new_tab'):
        setattr(webbrowser, n, _open)
    from dst import boot, models
    for f in list(models.DFN.values()) + [models.user]:
        boot.instrument(f.__code__)
    # the one Python-level shared state of pandas the library goes through: a calendar keeps its last date range
    from pandas.tseries.holiday import AbstractHolidayCalendar
    boot.instrument(AbstractHolidayCalendar.holidays.__code__)


def name_models():
    """Record which model is being evaluated (outermost), whatever way the library calls it."""
    from anticipy.forecast_models import ForecastModel
    real = ForecastModel.__call__

    def __call__(self, *a, **k):
        if cand['depth'] == 0:
            cand['name'] = self.name
        cand['depth'] += 1
        try:
            return real(self, *a, **k)
        finally:
            cand['depth'] -= 1
    ForecastModel.__call__ = __call__
    real_init = ForecastModel.__init__

    def __init__(self, *a, **k):
        real_init(self, *a, **k)
        _wrap_f(self)
    ForecastModel.__init__ = __init__
    import gc
    import anticipy.forecast_models as fm
    for v in list(vars(fm).values()):
        if isinstance(v, ForecastModel):
            _wrap_f(v)


def _wrap_f(m):
    f = m.f_model
    if getattr(f, '_dst', False):
        return

    def f_model(*a, **k):
        if cand['depth'] == 0:
            cand['name'] = m.name
        cand['depth'] += 1
        try:
            return f(*a, **k)
        finally:
            cand['depth'] -= 1
    f_model._dst = True
    m.f_model = f_model


def solver(hook):
    """hook(candidate name, solver run of that candidate (1..), linear-algebra step in this run (1..)) may raise.
    cand['run'] counts solver runs in this process; reset_solver() restarts the counts."""
    import importlib
    trf = importlib.import_module('scipy.optimize._lsq.trf')
    ls = importlib.import_module('scipy.optimize._lsq.least_squares')
    if svd_hook[0] is None:
        real_svd, real_trf = trf.svd, ls.trf

        def svd(*a, **k):
            st = cand['step'] = cand.get('step', 0) + 1
            svd_hook[0](cand['name'], cand['fit'].get(cand['name'], 0), st)
            return real_svd(*a, **k)

        def trf_(*a, **k):
            n = cand['name']
            cand['fit'][n] = cand['fit'].get(n, 0) + 1
            cand['run'] = cand.get('run', 0) + 1
            cand['step'] = 0
            if on_start[0] is not None:
                on_start[0](int(np.size(a[3] if len(a) > 3 else k['f0'])))
            if on_solver[0] is None:
                return real_trf(*a, **k)
            on_solver[0](True)
            try:
                return real_trf(*a, **k)
            finally:
                on_solver[0](False)
        trf.svd, ls.trf = svd, trf_
    svd_hook[0] = hook


def reset_solver():
    cand['fit'] = {}
    cand['run'] = cand['step'] = 0
