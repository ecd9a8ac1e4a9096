# One-off generator for properties.jsonl (kept so the file can be re-derived).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
F='anticipy/forecast.py';M='anticipy/forecast_models.py';U='anticipy/model_utils.py';L='anticipy/forecast_plot.py';A='anticipy/app.py'

p('C01','Concurrent callers each get the answer they would get alone',
 'When several threads of one process call the library at the same time - forecasting, fitting, extrapolating, evaluating or building models, on shared or separate data and shared or separate model objects - every call returns exactly what it would have returned running alone with the same random stream, or raises the same error. This holds however the threads are interleaved, and no interleaving makes a call hang.',
 ['schedules','inputs'],'Every interleaving of 2-4 caller threads at the granularity of source lines (sampled also at bytecodes) of the library, over generated series, model objects and options.',
 'The suite is strictly single-threaded (its parallel tests are skipped: "Dask not supported yet"); no test runs two calls at once, so no interleaving is ever exercised.',
 [F,M,U],[('model functions are pure over shared model singletons','forecast_models.py: _f_model_*, ForecastModel'),('per-call cache dictionaries','forecast_models.py: ForecastModel.init_cache'),('models with fixed parameters','forecast_models.py: fix_params_fmodel, get_fixed_model')],
 ['return values / exceptions of forecast.run_forecast, fit_model, extrapolate_model, get_pi, model(...)'],
 [('module-level model objects','shared by every caller','forecast_models.py: model_*'),('l_params_fixed','array captured by a fixed-parameter model','forecast_models.py: fix_params_fmodel')])

p('C02','A call leaves nothing behind that changes later calls',
 'The result of a call depends only on its arguments and the random stream, never on what the process did before: after any history of earlier calls - successful, rejected, with failed fits, or aborted half-way by an interrupt or memory error - a call returns exactly what it returns in a fresh process.',
 ['histories','crash_points','inputs'],'Every sequence of earlier public calls (including near-identical data and same-named models), each possibly aborted at any line of the library or hit by a fit failure, followed by any public call.',
 'Tests run one call at a time on fixed data, do not abort calls midway, and never compare a warm process with a fresh one.',
 [F,M,U],[('no state outside the call: per-call copies of inputs, per-call caches','forecast.py: run_forecast_single, fit_model; forecast_models.py: init_cache')],
 ['return values / exceptions of public functions'],
 [('module-level model objects and configuration','must stay as imported','forecast_models.py')])

p('C03','Caller-owned data and model objects are never modified',
 'No library call modifies the data frames, series, arrays, lists, dictionaries or model objects the caller passes in - neither in the end state nor while the call is in progress, as another thread would see them. This holds whether the call succeeds, is rejected, has fits fail, or is aborted at any point.',
 ['schedules','crash_points','fault_sequences','inputs'],'Every public call with caller-owned arguments, observed at arbitrary instants of the call and after every kind of outcome, including interrupts at any line and fit failures.',
 'Tests build fresh inputs per call, rarely compare them afterwards, and never look at them during a call or after an aborted one.',
 [F,M,U,L],[('defensive copies','forecast.py: normalize_df, fit_model, run_forecast_single, get_df_actuals_clean, _get_pi_single_source')],
 ['arguments passed to public functions, during and after the call'])

p('C04','A candidate model that cannot be fitted harms no other candidate',
 'When fitting any subset of the candidate models fails - the numerical solver does not converge (linear-algebra failure at any step of the fit) or the model declines the input (its validation raises an assertion or returns False) - the forecast call still completes; each failed candidate is reported as not fitted and is never selected. Every other candidate has the same parameters, cost, score and forecast as if the failed ones had not been offered, and the selected one is the fitted candidate with the lowest score; if none could be fitted the output holds just the actuals.',
 ['fault_sequences','inputs','configurations'],'Every pattern of solver failures over (candidate, solver step), including the internal fits used for automatic composition choice, and every pattern of declined candidates, over generated series, candidate lists and options.',
 'One data set happens to trigger one solver failure in one candidate; which candidate fails, at which step, several at once, all at once, or in the additive/multiplicative detection is never tested.',
 [F,M,U],[('LinAlgError handling','forecast.py: optimize_least_squares'),('status/is_fit bookkeeping and best-fit choice','forecast.py: fit_model, run_forecast_single'),('input validation','forecast_models.py: ForecastModel.validate_input'),('automatic composition','model_utils.py: is_multiplicative')],
 ["forecast.run_forecast(simplify_output=False)['metadata','data','forecast','optimize_info']"])

p('C05','Each source is forecast as if it were the only one',
 'In a call with several sources, the rows returned for a source are those a call with only that source returns (given the same random draws), whatever the other sources contain and whatever happens to them: rows of different sources arriving interleaved, other sources losing most or all of their samples, or the fits of other sources failing.',
 ['fault_sequences','inputs','configurations'],'Every combination of sources, arrival interleaving of their rows, sample loss in other sources (down to a single sample or all null) and solver failures confined to other sources.',
 'Tests with several sources use two healthy series of similar shape and mostly only print the result; no test breaks one source and compares the other with a solo run.',
 [F],[('per-source loop and aggregation','forecast.py: normalize_df, run_forecast, aggregate_forecast_dict_results'),('per-source prediction intervals','forecast.py: get_pi')],
 ['all output tables of forecast.run_forecast, filtered by source'])

p('C06','Prediction intervals are sound for every sequence of random draws',
 'Whatever random draws the bootstrap makes, interval bounds are finite and nested around each other, rows for actuals carry none, and the drawn values never alter the forecast values or the choice of rows. A bound never departs from the forecast by more than the extreme centred residuals allow: one residual over the past, and one more for each widening period begun after the last actual; when every draw picks the same residual the departure is exactly that.',
 ['inputs','configurations','fault_sequences'],'Every outcome of the bootstrap draws, including adversarial ones (always the same residual, extremes, alternating), over generated series, sampling frequencies, percentiles and widening periods.',
 'Tests draw a handful of unseeded samples and only print or check column names; a draw-dependent violation is invisible to them.',
 [F],[('bootstrap of centred residuals and cumulative widening','forecast.py: get_pi, _get_pi_single_source, _df_add_pi_percentiles')],
 ['quantile columns of forecast.run_forecast / forecast.get_pi'])

p('C07','Seeded forecasts are reproducible in every process environment',
 'With the global random generator seeded, a call returns bit-identical results (elapsed times apart) in every process: under any hash randomisation, set-iteration order, system clock, time zone, working directory, process identity, number of processors, environment variables, log level or pandas display settings, and however often it is repeated from the same seed.',
 ['configurations','schedules','inputs'],'Every hash seed, set iteration order, clock setting, time zone, working directory, process, processor count, environment, log level and pandas display setting, over generated inputs and options.',
 'The suite runs in one process with PYTHONHASHSEED=0 and TZ=UTC and never repeats a call in another environment.',
 [F,M],[('candidate lists are sorted before fitting','forecast.py: run_forecast_single'),('all randomness comes from the global numpy generator','forecast_models.py: _f_init_params_*; forecast.py: _get_pi_single_source')],
 ['all output tables of forecast.run_forecast'])

p('C08','Point forecasts and model choice do not depend on luck',
 'For candidate models that are linear in their parameters and combined additively (constant, linear, weekday, calendar and dummy-variable components), fitted to noisy data covering every component, the fitted values, the extrapolated forecast and the selected model are the same - to solver tolerance - for every outcome of the random draws used to initialise parameters.',
 ['inputs','fault_sequences'],'Every outcome of the random initial-parameter draws, including extreme ones, over generated noisy series and candidate lists.',
 'Tests fit with one set of draws and compare with hand-picked expected values on noiseless data.',
 [F,M],[('bounded trust-region least squares run to convergence','forecast.py: optimize_least_squares'),('initial parameter functions','forecast_models.py: _f_init_params_*')],
 ["forecast.run_forecast(simplify_output=False)['data','metadata'], forecast.fit_model"])

p('C09','The system clock affects nothing but reported durations',
 'Whatever the clock does before or during a call - a wrong date, steps forwards or backwards, stalls - every result other than the reported fit duration is unchanged. The reported fit duration is never negative and equals the time that really elapsed during the fit, even if the wall clock is stepped meanwhile.',
 ['fault_sequences','schedules','inputs'],'Every wall-clock behaviour (arbitrary date, jumps at any instant) combined with arbitrary genuine delays during model evaluation, over generated inputs.',
 'Tests only check that the duration column is numeric; the clock of the test machine never jumps.',
 [F],[('fit duration measurement','forecast.py: fit_model')],
 ["metadata.fit_time and all other outputs"])

p('C10','Interrupts and out-of-memory errors always reach the caller',
 'An interrupt (Ctrl-C), exit request or memory error raised at any instant during a library call - in the library itself, inside a model, validation or dummy-variable function supplied by the caller, inside the numerical solver or during file output - reaches the caller as that same error: it is never swallowed, turned into a normal-looking result, or replaced by a different error.',
 ['crash_points','inputs'],'Every public call, every line of the library at which an asynchronous interrupt or memory error can strike, and every call-out from the library (model functions, solver, file output).',
 'No test interrupts a call; an over-broad handler is invisible unless an error strikes inside it.',
 [F,M,U,L],[('narrow exception handlers','forecast.py: optimize_least_squares; forecast_models.py: validate_input, _get_f_dummy_from_list')],
 ['exception type and identity seen by the caller'])

p('C11','Caching never changes a result',
 'Fitting and forecasting give the same results with the model-variable cache enabled as with it disabled, for every model, and for every history in which the same model objects are fitted to different data, date ranges and frequencies in any order, with the cache switched on or off per call, by one thread or several interleaved ones.',
 ['histories','schedules','configurations','inputs'],'Every sequence or interleaving of fits sharing model objects (including composites of components with equal names), with per-call cache settings, over generated date ranges and frequencies.',
 'Tests compare cache on/off for one call at a time on one date range per model; a stale or clashing cache entry needs a second, different call or component.',
 [F,M],[('per-fit cache initialisation','forecast_models.py: ForecastModel.init_cache'),('cache variable names of composed models','forecast_models.py: get_model_dummy, ForecastModel.__add__/__mul__')],
 ['forecast.fit_model / run_forecast with use_cache True and False'])

p('C12','A fit that never converges is abandoned after bounded work',
 'If a candidate model keeps improving without ever converging, or its fit fails again and again, the library gives up on it after a bounded number of model evaluations (at most a fixed multiple of n*(n+1) for n parameters), reports it as not fitted, does not select it, and completes the call with the other candidates.',
 ['fault_sequences','inputs'],'Every non-converging behaviour of a candidate (endless improvement, persistent solver failure from any step on), over parameter counts, positions in the candidate list and generated inputs.',
 'No test has a candidate that does not converge, so neither the evaluation limit nor the not-converged outcome is reached on purpose.',
 [F],[('evaluation limit of the solver; NO-FIT status','forecast.py: optimize_least_squares, fit_model')],
 ['number of model evaluations; metadata.is_fit/status/is_best_fit'])

p('C13','A plot is reported as done only if it was really written',
 'If a plot request reports success (return code 0), the file at the requested path (plus the format extension) exists, is complete, and is exactly the plot of the given table; if the plot could not be produced or stored - disk error, full disk, permission denied, short writes, plotting library missing, no path, unknown format - a png or html plot call raises or returns a non-zero code. A missing target directory for png output is created, also when another process creates it at the same moment, and no other file is touched and no browser opened unless asked for.',
 ['fault_sequences','crash_points','configurations'],'Every sequence of file-system faults over the operations of a plot call, every availability of the plotting libraries, and every interference of another process creating or removing the target directory.',
 'Tests write to a healthy disk with all libraries installed and only check that a file exists.',
 [L],[('return codes and directory creation','forecast_plot.py: plot_forecast')],
 ['return code of forecast_plot.plot_forecast and file-system state'])

p('C14','Concurrent plots do not mix',
 'When several threads plot at the same time, to png or html, each output file holds exactly the plot of the table its own call was given - the same bytes as when it is plotted alone - under every interleaving, and even if one of the plots fails.',
 ['schedules','fault_sequences'],'Every interleaving of 2-3 plotting threads at line granularity, optionally with a disk error hitting one of them.',
 'Plot tests are sequential and never look at file contents.',
 [L],[('figure creation and saving','forecast_plot.py: plot_forecast, _matplotlib_forecast_create')],
 ['contents of the written files'],
 [('current figure','process-wide selection used when saving','matplotlib.pyplot')])

p('C15','The command-line application survives disk faults and crashes',
 'If the forecasting application ends normally, its forecast table, metadata table and plot (if the plotting library is installed) are complete in the requested output folder; on a disk error it ends with an error instead. If it is killed at any point, or fails, running it again on a healthy disk gives the same output files as an undisturbed run. Its input file and all unrelated files are never altered, and a failure while plotting never damages the tables already written.',
 ['crash_points','fault_sequences','histories'],'Every crash point and every sequence of disk faults (errors, full disk, short writes, data not yet on disk lost or torn at the crash) over the application\'s file operations, followed by re-runs.',
 'The application has no test at all.',
 [A,F,L],[('read, forecast, write tables, plot','app.py: run_forecast_app')],
 ['files in the output folder, exit status of app.run_forecast_app'])

p('C16','Process-wide state is left as it was found',
 'Apart from drawing from the global random generator - which is advanced but never reseeded or replaced - and apart from the ggplot style that png plots select, a library call leaves the process as it found it: numerical error handling, warning filters, library options, logging configuration, environment, working directory, signal handlers, open files, open plot figures and threads. Forecasting itself touches no files, network or other processes. This holds after success, errors, failed fits, disk faults and interruptions, and over any number of repeated calls.',
 ['histories','fault_sequences','crash_points'],'Every sequence of public calls with every outcome, including solver failures, disk faults while plotting, interruptions at any library line outside clean-up code, and errors raised by user-supplied functions.',
 'Tests never inspect process-wide state; leaks accumulate over many calls and mostly on failure paths.',
 [F,M,U,L],[('no global configuration in library calls','forecast.py, model_utils.py, forecast_plot.py')],
 ['numpy/pandas/warnings/logging/os/signal/matplotlib state before and after each call'])

p('C17','Forked worker processes compute what a fresh process would',
 'A process that uses the library may be forked at any moment - between calls or while other threads of it are in the middle of library calls - and every library call made in the child returns exactly what it would have returned in a fresh process with the same random stream, or raises the same error; it never blocks. The fork does not disturb the calls in progress in the parent.',
 ['schedules','crash_points','inputs'],'Every instant of the fork relative to 1-3 threads of the parent in library calls, and every public call in the child on shared or separate data and models.',
 'No test forks; the moment of a fork relative to the calls of other threads cannot be chosen by a test.',
 [F,M,U],[('no locks, pools, background threads or half-built tables at module level','forecast.py, forecast_models.py, model_utils.py')],
 ['return values / exceptions of public functions in the child and in the parent'])

p('C18','Calls may be made in the middle of other calls',
 'A library call made while another one is in progress in the same thread - from a signal handler that runs at any moment, or from a model, seasonality, validation or initial-value function supplied by the caller - returns exactly what it returns on its own with the same random stream, or raises the same error, and so does the call in whose middle it was made. Neither ever blocks.',
 ['schedules','histories','inputs'],'Every instant of every call at which a handler may run, every position of user-supplied functions, and every pair of public calls on shared or separate data and models.',
 'No test nests calls; the instant at which a signal handler runs cannot be chosen by a test.',
 [F,M,U],[('no locks, buffers, flags or half-built tables shared by a call with one in its middle','forecast.py, forecast_models.py, model_utils.py')],
 ['return values / exceptions of nested and outer calls of the public functions'])

p('C19','A long-running process does not accumulate memory',
 'Repeating the same kinds of calls on ever new data and model objects does not make a process grow without bound: once a call has returned or raised - normally, after an interrupt, an allocation failure, a failed fit or an error in a user-supplied function - the library does not go on holding the series, models and results of call after call, and after a settling-in period the memory in use does not keep growing with the number of calls.',
 ['histories','fault_sequences','inputs'],'Every history of calls repeated for ever, with every outcome of the single call.',
 'Tests make each call once; growth shows only over hundreds of calls and often only on failure paths.',
 [F,M,U],[('no per-call records at module level or on the shared model objects','forecast.py, forecast_models.py, model_utils.py')],
 ['live caller objects and allocated memory blocks after rounds of calls of the public functions'])

PURE='A pure function of its input: no schedule, clock, fault, crash or history takes part. '
def n(id,title,statement,text,why,files,mech,obs):
    p(id,title,statement,['inputs'],text,why,files,mech,obs)
n('N01','Model composition obeys its algebra','For all models, adding (multiplying) two models gives a model whose output is the sum (product) of the components\' outputs under the concatenated parameters, with null as neutral element, at any nesting depth.','Every pair of models, parameters and inputs.','Tests compose a few models on one input.',[M],[('composition','forecast_models.py: ForecastModel.__add__, __mul__')],['model(...)'])
n('N02','Forecasts cover the requested horizon on the right dates','For every input frequency the forecast rows start at the first usable actual, continue on the input\'s sampling grid, and end at the requested number of years after the last actual.','Every frequency, start date and horizon.','Tests cover a few frequencies and whole years; e.g. fractional horizons of monthly series are untested.',[U,F],[('extrapolation axis','model_utils.py: get_s_x_extrapolate')],['forecast table dates'])
n('N03','Input format does not matter','The same samples given as a series, indexed frame, frame with renamed columns, or with rows in another order give the same forecast.','Every equivalent representation of a series.','Tests use a few representations.',[F],[('normalisation','forecast.py: normalize_df')],['run_forecast output'])
n('N04','Ignored samples have no influence','Samples with a null value or zero weight never influence fits, scores or forecasts, and weights scale residuals as documented.','Every series and weight vector.','Tests use a few weight patterns.',[F],[('filtering','forecast.py: fit_model, run_forecast_single')],['metadata, forecast'])
n('N05','Outlier detection flags spikes and only spikes','With outlier detection on, isolated spikes beyond the inter-quartile thresholds get weight 0 and all other samples keep their weight.','Every series.','Two of the tests fail on the installed pandas; others use a few series.',[M],[('outliers','forecast_models.py: get_model_outliers')],['weight column'])
n('N06','Calendar and dummy models mark exactly their dates','A calendar, holiday or date-list model contributes its parameter exactly on the dates of its rule, and nothing elsewhere.','Every date range and rule.','Tests evaluate a few ranges.',[M],[('dummy models','forecast_models.py: get_model_dummy, get_model_from_calendars')],['model(...)'])
n('N07','Frequency detection and gap filling are faithful','The sampling frequency found is that of the series, gap filling adds only the missing grid points and never changes given samples.','Every regular series with gaps.','Tests use a few series.',[U],[('frequency, gaps','model_utils.py: detect_freq, interpolate_df')],['detect_freq, interpolate_df'])
n('N08','Naive forecasts only use earlier samples','The (seasonal) naive model predicts every sample from strictly earlier samples of the series (of the same weekday), and repeats the last known ones in the future.','Every series with gaps.','Tests use a few series.',[M],[('naive models','forecast_models.py: _f_model_naive, _f_model_snaive_wday')],['model(...)'])
n('N09','Model scores follow the corrected Akaike criterion','The score of a fit is AICc of its cost, sample count and parameter count, so that of two equally good fits the simpler one wins.','Every cost, n and k.','Tests evaluate a few values.',[U],[('AICc','model_utils.py: get_aic_c')],['metadata.aic_c'])
n('N10','Fitted parameters respect declared bounds','Initial and fitted parameters of a bounded model always lie within the bounds its bounds function declares for the input.','Every input and bounded model.','Tests use a few bounded models.',[M,F],[('bounds','forecast.py: optimize_least_squares')],['metadata.params'])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), 'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
