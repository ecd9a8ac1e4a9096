From c52ab20f9e51958eaaf941dd9b2417ca10ebfcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 01/15] fix: do not share the parameter buffer of a partially
 fixed model between calls

---
 anticipy/forecast_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index a15ac6f..9c7ee7d 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1847,7 +1847,7 @@ def fix_params_fmodel(forecast_model, l_params_fixed):
     n_params = len(i_null[0])
 
     def f_model_fixed(a_x, a_date, params, is_mult=False, **kwargs):
-        params_long = l_params_fixed
+        params_long = l_params_fixed.copy()
         params_long[i_null] = params
         return forecast_model.f_model(a_x, a_date, params_long, is_mult)
 
-- 
2.43.0


From 7a22f89c1070bea93fb148acb3d6df91de43137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 02/15] fix: use additive composition if the fit behind
 automatic detection fails

---
 anticipy/model_utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index a87c88f..49b456b 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -405,6 +405,8 @@ def _fit_linear(df):
     assert df.index.size >= 4, 'Linear model requires 4+ samples'
     dict_result = fit_model(model_linear, df)
     params = dict_result.get('metadata').params.iloc[0]
+    if len(params) != model_linear.n_params:  # The fit failed
+        return None
     df_pred = extrapolate_model(
         model_linear, params, df.x.min(), df.x.max() + 1,
         extrapolate_years=0)
@@ -429,6 +431,8 @@ def _get_mult_sum_stats(df, freq='M'):
     """
     # Fit linear model, get residuals
     df_pred = _fit_linear(df)
+    if df_pred is None:  # The fit failed - no residuals to look at
+        return None
     df_res = df_pred.assign(res=df_pred.y_pred - df_pred.y)
 
     # Get statistics from residuals
@@ -465,6 +469,7 @@ def is_multiplicative(df, freq='M'):
     - If any time series value is <=0, use additive
     - If date information is unavailable (only x column), use additive
     - If less than 2 periods worth of data are available, use additive
+    - If a linear model can't be fitted to the time series, use additive
     """
     if (df.y <= 0).any():
         return False
@@ -479,6 +484,8 @@ def is_multiplicative(df, freq='M'):
     if df_filtered.index.size < 4:  # Not enough samples to fit a linear model
         return False
     df_stats = _get_mult_sum_stats(df, freq)
+    if df_stats is None:
+        return False
     # Column corr_mean_to_var is constant
     corr_mean_to_var = df_stats.corr_mean_to_var.iloc[0]
     return corr_mean_to_var >= 0.8
-- 
2.43.0


From 63d472a154526799a56ca5b277fee380ccea0d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 03/15] fix: respect input validation functions that return
 False

---
 anticipy/forecast_models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 9c7ee7d..3450907 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -510,7 +510,9 @@ class ForecastModel:
                         for f_validate_input in self.l_f_validate_input]
         except AssertionError:
             return False
-        return True
+        # A validation function without a return value is successful
+        # unless it raises an exception
+        return all(result is None or bool(result) for result in l_result)
 
     def init_cache(self, a_x, a_date):
         dict_cache_vars = dict()
-- 
2.43.0


From f86fd321c02e3a6f2ecc442748db8bade34624a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 04/15] fix: generate output for time series with a single
 sample

---
 anticipy/forecast.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 0a4143a..920d40e 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1563,7 +1563,9 @@ class ForecastInput:
 
 
 def _get_days_from_freq(freq):
-    if freq.startswith('Y'):
+    if freq is None:  # Unknown, e.g. for a time series with a single sample
+        return 1
+    elif freq.startswith('Y'):
         return 365
     elif freq.startswith('M'):
         return 30
-- 
2.43.0


From 2b87aa09b900a26f303760fcce19d81fef008f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 05/15] fix: generate output for time series without dates or
 non-null values

---
 anticipy/forecast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 920d40e..a1d078f 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -494,9 +494,9 @@ def fit_model(model, df_y, freq='W', source='test', df_actuals=None,
     # Get first and last actuals date, for metadata. If no a_date, use a_x
     # instead.
     date_start_actuals = i_date.min().date()\
-        if i_date is not None else a_x.min()
+        if i_date is not None else (a_x.min() if a_x.size > 0 else np.NaN)
     date_end_actuals = i_date.max().date()\
-        if i_date is not None else a_x.max()
+        if i_date is not None else (a_x.max() if a_x.size > 0 else np.NaN)
     actuals_x_range = '{}::{}'.format(date_start_actuals, date_end_actuals)
 
     if df_y.empty:
-- 
2.43.0


From bc2b11e3a9a34d3a3d48ad5513f925c4c37ccf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:41 +0000
Subject: [PATCH 06/15] fix: measure the fit duration with a monotonic clock

---
 anticipy/forecast.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index a1d078f..8474524 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -23,6 +23,7 @@ import scipy
 from numpy.linalg import LinAlgError
 from scipy import optimize
 from datetime import datetime
+from timeit import default_timer
 import math
 
 # -- Private Imports
@@ -554,7 +555,7 @@ def fit_model(model, df_y, freq='W', source='test', df_actuals=None,
 
         if model.n_params == 0:
             # 0-parameter model, no fit required
-            time_start = datetime.now()
+            time_start = default_timer()
             a_residuals = get_residuals(
                 None,
                 model,
@@ -563,7 +564,7 @@ def fit_model(model, df_y, freq='W', source='test', df_actuals=None,
                 i_date,
                 a_weights,
                 df_actuals=df_actuals)
-            fit_time = (datetime.now() - time_start).total_seconds()
+            fit_time = default_timer() - time_start
             cost = 0.5 * np.nansum(a_residuals ** 2)
             is_fit = True
             params = np.array([])
@@ -618,12 +619,12 @@ def fit_model(model, df_y, freq='W', source='test', df_actuals=None,
                                                      'source_long',
                                                      'params']]
         else:
-            time_start = datetime.now()
+            time_start = default_timer()
             df_result_optimize = optimize_least_squares(
                 model, a_x, a_y, i_date, a_weights, df_actuals=df_actuals,
                 use_cache=use_cache
             )
-            fit_time = (datetime.now() - time_start).total_seconds()
+            fit_time = default_timer() - time_start
             cost = df_result_optimize.cost.iloc[0]
             is_fit = df_result_optimize.success.iloc[0]
             params = df_result_optimize.params.iloc[0]
-- 
2.43.0


From 00d252b306c9525fece54eb6b8b26fe57212a728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:28 +0000
Subject: [PATCH 07/15] fix: import the package's modules in the command-line
 application

---
 anticipy/app.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/anticipy/app.py b/anticipy/app.py
index 05511cc..a7e68f2 100644
--- a/anticipy/app.py
+++ b/anticipy/app.py
@@ -16,11 +16,10 @@
 import logging
 import pandas as pd
 import os
-import forecast
-import forecast_plot
 import argparse
 
 # -- Private Imports
+from anticipy import forecast, forecast_plot
 
 # -- Globals
 logger = logging.getLogger(__name__)
-- 
2.43.0


From f8727716ebe519698507acc9604b2403b70dce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 08/15] fix: let interrupts and memory errors out of dummy list
 conversion

---
 anticipy/forecast_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 3450907..2c3a995 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1521,7 +1521,7 @@ def _get_f_dummy_from_list(list_check):
                 return np.isin(a_date, list_check_date).astype(float)
 
             return f_dummy_list_date
-        except BaseException:
+        except (TypeError, ValueError, OverflowError):
             raise ValueError(
                 'list_dummy must be a list-like with numeric or'
                 'date-like values: %s', list_check)
-- 
2.43.0


From 2bc6fccb248d5bbd06cc77989ae24839e3fad135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:11 +0000
Subject: [PATCH 09/15] fix: do not share cached masks between same-named
 components

---
 anticipy/forecast_models.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 2c3a995..55e5290 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -183,6 +183,18 @@ _dict_f_cache = dict(
 )
 
 
+def _get_combined_dict_f_cache(dict_f_cache_1, dict_f_cache_2):
+    # Combine the cache functions of two model components. If both components
+    # use the same variable name with different functions, the variable can't
+    # be shared, so it is not cached - a null function marks it as ambiguous
+    dict_f_cache = dict_f_cache_1.copy()
+    for k, f in dict_f_cache_2.items():
+        if k in dict_f_cache and dict_f_cache[k] is not f:
+            f = None
+        dict_f_cache[k] = f
+    return dict_f_cache
+
+
 # -- Classes
 
 class ForecastModel:
@@ -437,8 +449,8 @@ class ForecastModel:
         l_f_validate_input = list(
             set(self.l_f_validate_input + forecast_model.l_f_validate_input))
         # Combine both dicts
-        dict_f_cache = self.dict_f_cache.copy()
-        dict_f_cache.update(forecast_model.dict_f_cache)
+        dict_f_cache = _get_combined_dict_f_cache(
+            self.dict_f_cache, forecast_model.dict_f_cache)
         l_cache_vars = list(
             set(self.l_cache_vars + forecast_model.l_cache_vars))
         return ForecastModel(
@@ -469,8 +481,8 @@ class ForecastModel:
         l_f_validate_input = list(
             set(self.l_f_validate_input + forecast_model.l_f_validate_input))
         # Combine both dicts
-        dict_f_cache = self.dict_f_cache.copy()
-        dict_f_cache.update(forecast_model.dict_f_cache)
+        dict_f_cache = _get_combined_dict_f_cache(
+            self.dict_f_cache, forecast_model.dict_f_cache)
         l_cache_vars = list(
             set(self.l_cache_vars + forecast_model.l_cache_vars))
         return ForecastModel(
@@ -528,7 +540,7 @@ class ForecastModel:
             if f:
                 dict_cache_vars[k] = f(a_x, a_date)
             else:
-                logger.warning('Cache function not found: %s', k)
+                logger.info('No unique cache function for: %s', k)
         return dict_cache_vars
 
 
@@ -1809,7 +1821,9 @@ def get_model_from_datelist(name=None, *args):
         name,
         len(l_model_dummy),
         _f_model_date_list,
-        _f_init_params_date_list
+        _f_init_params_date_list,
+        l_cache_vars=f_model_sum.l_cache_vars,
+        dict_f_cache=f_model_sum.dict_f_cache
     )
     return model_date_list
 
-- 
2.43.0


From 8cd8e2d1b61d89f5b2fa5f8a755a62c3defa8825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:43 +0000
Subject: [PATCH 10/15] fix: draw each png plot on a figure of its own

---
 anticipy/forecast_plot.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index a8df364..141e0ea 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -24,6 +24,8 @@ logger = logging.getLogger(__name__)
 
 try:
     import matplotlib.pyplot as plt
+    from matplotlib.figure import Figure
+    from matplotlib.backends.backend_agg import FigureCanvasAgg
 
     _matplotlib_imported = True
 except ImportError:
@@ -100,9 +102,11 @@ def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
 
     # create the DatetimeIndex
     df_fcast = df_fcast.set_index('date')
-    fig, axes = plt.subplots(nrows=nrows, ncols=ncols, figsize=figsize,
-                             dpi=dpi, squeeze=False)
-    fig.canvas.set_window_title(title)
+    # The figure is not registered with pyplot, whose list of figures and
+    # current figure are shared by the whole process
+    fig = Figure(figsize=figsize, dpi=dpi)
+    FigureCanvasAgg(fig)
+    axes = fig.subplots(nrows=nrows, ncols=ncols, squeeze=False)
 
     x = 0
     y = 0
@@ -168,7 +172,7 @@ def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
         y = 0
         x += 1
 
-    return plt.Figure
+    return fig
 
 
 def _plotly_forecast_create(df_fcast, subplots, sources, nrows, ncols,
@@ -439,7 +443,7 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
             if dirname != '' and not os.path.exists(dirname):
                 logger.error('Path missing {}'.format(path))
                 os.makedirs(dirname)
-            plt.savefig(path, dpi=dpi)
+            fig.savefig(path, dpi=dpi)
 
             if auto_open:
                 fileurl = 'file://{}'.format(path)
-- 
2.43.0


From 3d8de199726c64afa77cc5bbb75f53de99d0e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:43 +0000
Subject: [PATCH 11/15] fix: tolerate another process creating the plot folder

---
 anticipy/forecast_plot.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index 141e0ea..dbf93e3 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -442,7 +442,12 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
             dirname, fname = os.path.split(path)
             if dirname != '' and not os.path.exists(dirname):
                 logger.error('Path missing {}'.format(path))
-                os.makedirs(dirname)
+                try:
+                    os.makedirs(dirname)
+                except OSError:
+                    # Another process may have created it in the meantime
+                    if not os.path.isdir(dirname):
+                        raise
             fig.savefig(path, dpi=dpi)
 
             if auto_open:
-- 
2.43.0


From 7b3581ced0511a4d2f160f44a09b8fc9b501077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:43 +0000
Subject: [PATCH 12/15] fix: report a plot as failed if its library is missing

---
 anticipy/forecast_plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index dbf93e3..2bb4276 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -456,6 +456,7 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
         else:
             logger.error('Please install matplotlib library to enable this '
                          'feature.')
+            return 1
     elif output == 'html':
         if _plotly_imported:
             fig = _plotly_forecast_create(df_fcast, subplots, sources, nrows,
@@ -469,6 +470,7 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
         else:
             logger.error('Please install plotly library to enable this '
                          'feature.')
+            return 1
     elif output == 'jupyter':
         if _plotly_imported and _ipython_imported:
             py.offline.init_notebook_mode(connected=True)
@@ -481,6 +483,7 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
         else:
             logger.error('Please make sure that both plotly and ipython '
                          'libraries are installed to enable this feature.')
+            return 1
     else:
         logger.error('Wrong exporting format provided. Either png, html or '
                      'jupyter formats are supported at the moment.')
-- 
2.43.0


From 234796ff304b7a1b089dc547497dc6675de6378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:43 +0000
Subject: [PATCH 13/15] fix: write to the given output folder without a
 trailing slash

---
 anticipy/app.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/app.py b/anticipy/app.py
index a7e68f2..5462940 100644
--- a/anticipy/app.py
+++ b/anticipy/app.py
@@ -55,7 +55,8 @@ def run_forecast_app(path_in, path_out=None, forecast_years=2.0,
         path_out = path_in
     assert os.path.exists(path_out)
 
-    path_folder = os.path.dirname(path_out)
+    path_folder = path_out if os.path.isdir(path_out) \
+        else os.path.dirname(path_out)
 
     logger_info('dir name', path_folder)
 
-- 
2.43.0


From 71632ff8c499734de00a0c05a6227425a6c3c02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 14/15] fix: do not share the dates kept by a holiday calendar
 between calls

pandas calendars keep the dates of the last range they were asked for in
an unsynchronised attribute. Two threads that evaluated one calendar model
over different date ranges could be served the holidays of each other's
range.
---
 anticipy/forecast_models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 55e5290..d2e2ef3 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -16,6 +16,7 @@ initialisation parameters.
 
 
 # -- Public Imports
+import copy
 import itertools
 import logging
 import numpy as np
@@ -1548,7 +1549,10 @@ def _get_f_dummy_from_calendar(calendar):
 
         # TODO: If we can guarantee sorted dates,
         #       change this to a_date[0], a_date[-1] for performance
-        list_check_date = calendar.holidays(a_date.min(), a_date.max())
+        # Calendars keep the dates of the last range they were asked for,
+        # and pandas doesn't synchronise access to them: ask a copy
+        list_check_date = copy.copy(calendar).holidays(
+            a_date.min(), a_date.max())
         return np.isin(a_date, list_check_date).astype(float)
 
     return f_dummy_calendar
-- 
2.43.0


From 95b323c3591555a1471ecba14f20572cb36d2958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 15/15] fix: do not write elsewhere if the output folder cannot
 be examined

An I/O error while the output path is examined made an existing folder
look like a file, and the output was written to its parent folder.
---
 anticipy/app.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anticipy/app.py b/anticipy/app.py
index 5462940..875f0df 100644
--- a/anticipy/app.py
+++ b/anticipy/app.py
@@ -16,6 +16,7 @@
 import logging
 import pandas as pd
 import os
+import stat
 import argparse
 
 # -- Private Imports
@@ -55,7 +56,8 @@ def run_forecast_app(path_in, path_out=None, forecast_years=2.0,
         path_out = path_in
     assert os.path.exists(path_out)
 
-    path_folder = path_out if os.path.isdir(path_out) \
+    # An error raised here must not make a folder look like a file
+    path_folder = path_out if stat.S_ISDIR(os.stat(path_out).st_mode) \
         else os.path.dirname(path_out)
 
     logger_info('dir name', path_folder)
-- 
2.43.0

