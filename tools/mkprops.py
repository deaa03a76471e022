import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=[observe]
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
A="src/modopt/opt/algorithms/"
ALG=[A+f for f in ("base.py","forward_backward.py","gradient_descent.py","primal_dual.py","admm.py")]
p("C01","An interrupted or split optimisation resumes on the same trajectory",
"For every solver, running it in several consecutive calls, or resuming it after a gradient, proximity, linear, sub-solver, cost or metric evaluation raised an error at any point, produces exactly the iterates of the uninterrupted run. An iteration whose gradient, proximity, linear or sub-solver evaluation failed has no effect and can simply be retried (settings that count iterations within a call, such as epochs, start over with each call); the error raised by the operator reaches the caller unchanged.",
["histories","fault_sequences"],"every solver and configuration, every way of splitting the iterations over calls, and every finite sequence of operator, cost or metric failures",
"tests run each solver once, from construction to completion, with operators that never fail; the state left behind by a failing operator at an arbitrary call is never looked at",
ALG,[("update step of each solver commits state only after its operators answered",A+"*.py:_update"),("iteration loop",A+"base.py:_iterations")],
"the arrays handed to the operators and the results exposed after each call")
p("C02","Solver iterates follow the documented recursion over any history",
"At every iteration each proximal and gradient solver (forward-backward with every acceleration and restart variant, generalised forward-backward, POGM, Condat primal-dual, and the gradient-descent family) asks its operators for values at exactly the points and with exactly the step factors its documented recursion prescribes, and exposes the iterates that recursion yields. This holds whatever values the operators return (including flat, oscillating, diverging or identical responses), however step parameters are updated along the way, and across restarts, repeated calls and failed iterations.",
["histories","configurations","fault_sequences"],"every solver, every parameter and restart configuration, every sequence of operator responses and parameter updates, with failed iterations in between",
"tests compare the final result of a few fixed problems with a known minimiser, to which a wrong recursion converges as well; restart, safeguard and shrink branches depend on the history of operator answers",
ALG[:4],[("forward-backward and FISTA recursion with restarts",A+"forward_backward.py:ForwardBackward,FISTA"),("generalised forward-backward and POGM",A+"forward_backward.py:GenForwardBackward,POGM"),("Condat recursion",A+"primal_dual.py:Condat._update"),("gradient-descent family",A+"gradient_descent.py")],
"arguments received by the operators and values visible to metrics")
p("C03","Solvers stop exactly when they are told to, and always stop",
"A call to iterate performs at least one and at most the requested number of iterations, and ends right after the first iteration whose cost convergence test passes, or at the latest one iteration after an early-stopping metric reported convergence; in no other case does it end early. This holds for every solver, with or without a cost function, after earlier failed or converged calls, and with any sequence of cost and metric values including infinite and undefined ones.",
["histories","fault_sequences","configurations"],"every solver, cost and early-stopping configuration, every sequence of cost and metric values and failures over any number of calls",
"tests exercise convergence with one smooth cost sequence each; stopping depends on the whole history of costs, metric windows and stale flags from earlier calls",
ALG+["src/modopt/opt/cost.py","src/modopt/base/observable.py"],[("iteration loop and converge flag",A+"base.py:_iterations"),("early stopping window","src/modopt/base/observable.py:MetricObserver.is_converge"),("cost test","src/modopt/opt/cost.py:_check_cost")],
"number of operator calls per iterate call")
p("C04","Metrics are evaluated exactly on their schedule",
"During a run every registered metric is evaluated exactly once at iterations 0, p, 2p, ... of the call period p, at the last iteration of the call and at the iteration that converges, at no other iteration, and never when the period is unset. Each evaluation receives the iterates of that very iteration (never stale or later values), the mapped names and the constant arguments, for any number of metrics and any sequence of calls and failures.",
["histories","configurations","fault_sequences"],"every solver, call period, metric mapping, sequence of iterate calls, convergence point and failing evaluation",
"tests pass one metric and only look that it ran; the schedule is a function of period, horizon, convergence iteration and call history",
ALG+["src/modopt/base/observable.py"],[("metric schedule",A+"base.py:_iterations"),("mapping of iterates to metric arguments",A+"*.py:get_notify_observers_kwargs"),("metric wrapper","src/modopt/base/observable.py:MetricObserver.__call__")],
"calls received by user-supplied metric functions")
p("C05","Metric histories stay aligned and their timings never run backwards",
"The recorded history of each metric always holds, in order, one index, one value and one elapsed time for each successful evaluation and nothing for a failed one; elapsed times start at zero and never decrease, even if the system clock is stepped while the solver runs. A history returned to the user is a snapshot that later iterations do not alter.",
["fault_sequences","histories"],"every sequence of metric evaluations, metric failures, iterate calls, retrievals, and clock steps, stalls and jumps in either direction",
"tests run on a well-behaved clock with metrics that never raise, and look at the history once, at the end",
["src/modopt/base/observable.py",A+"base.py"],[("recording of evaluations","src/modopt/base/observable.py:MetricObserver.__call__"),("history retrieval","src/modopt/base/observable.py:MetricObserver.retrieve_metrics")],
"metrics attribute of the solver, result of retrieval on the observer")
p("C06","Observer notification is ordered, exactly-once and never wedges",
"A notification calls every observer registered for that signal when it starts, once each and in registration order, with the data of that notification, and reports success; observers added or removed (also from inside callbacks) take effect on the next notification, duplicates are not registered twice, and unknown signals are rejected. A notification attempted while one is in progress is refused and has no effect, and an observer that raises propagates its error without disabling later notifications.",
["histories","fault_sequences"],"every history of registrations, removals, notifications, re-entrant calls and observer failures",
"no test removes an observer, notifies re-entrantly or lets an observer fail",
["src/modopt/base/observable.py"],[("notification loop and re-entrancy lock","src/modopt/base/observable.py:Observable.notify_observers"),("registration","src/modopt/base/observable.py:Observable.add_observer,remove_observer")],
"calls received by observers, return values")
p("C07","Cost history and convergence test follow the documented window rule",
"A cost object evaluates the sum of its operators' costs on every n-th call as configured (never when disabled), records each value once in order, and reports convergence exactly when a complete window of consecutive values has a relative change of means within tolerance, windows being non-overlapping. A cost evaluation that raises records nothing and leaves the window, the history and the schedule as if the call had not been made.",
["histories","fault_sequences","configurations"],"every sequence of cost values (including zero, negative, infinite and undefined), evaluation interval, window size, tolerance and failing evaluations",
"tests check one short sequence; window phase after failures, odd window sizes, and zero or non-finite means are functions of the whole history",
["src/modopt/opt/cost.py",A+"admm.py"],[("schedule","src/modopt/opt/cost.py:CostParent.get_cost"),("window test","src/modopt/opt/cost.py:CostParent._check_cost"),("sum over operators","src/modopt/opt/cost.py:costObj._calc_cost")],
"return values of the cost object, its cost value, calls received by operators")
p("C08","Solvers never share mutable memory with their caller",
"A solver never modifies an array the caller passed in (initial guesses, observed data, weights, metric constants), and overwriting those initial-guess arrays after construction does not change the run. Results handed out by one call are not changed by later calls, and operators that reuse one internal buffer for all their answers give the same run as operators returning fresh arrays.",
["histories","configurations"],"every solver and configuration, every point at which the caller overwrites its arrays, every number of further calls, every buffer-reuse behaviour of operators",
"tests never reuse or overwrite an array after handing it over, nor keep a result across a second call",
ALG+["src/modopt/opt/gradient.py"],[("copying of initial values",A+"*.py:__init__"),("rotation of old and new iterates",A+"*.py:_update"),("observed data","src/modopt/opt/gradient.py")],
"caller-side arrays before and after, operator arguments")
p("C09","Independent solvers running concurrently do not influence each other",
"Solvers that share no operator objects, run in different threads of one process, each produce exactly the iterates, costs, metrics and stopping iteration they produce when run alone, whatever the interleaving of their steps, whichever of them fail, and whatever the others are configured with.",
["schedules","fault_sequences"],"every interleaving at instruction or source-line granularity of any mix of solvers, with failures of any of them",
"tests never run two solvers at once; class- or module-level shared state shows only under particular interleavings",
ALG+["src/modopt/base/backend.py","src/modopt/base/observable.py","src/modopt/opt/gradient.py","src/modopt/opt/proximity.py"],[("all solver state lives on the instance",A+"*.py"),("operator state","src/modopt/opt/gradient.py"),("backend selection","src/modopt/base/backend.py")],
"operator arguments, results and metrics of each solver")
p("C10","Library functions are re-entrant, history-free and do not modify inputs",
"Every public numerical function (signal, mathematics and array utilities) returns, for given arguments, the same result whatever calls ran before it, run concurrently with it in other threads, or were interrupted at an arbitrary point; it never modifies its arguments or previously returned results. A call cut short by an error or interrupt leaves no trace in later calls.",
["schedules","histories","fault_sequences"],"every mix and order of calls, every interleaving of concurrent calls, every point at which a call is interrupted, over a broad range of argument types, shapes and options",
"tests call each function once on fresh arguments in one thread",
["src/modopt/signal/*.py","src/modopt/math/*.py","src/modopt/base/np_adjust.py","src/modopt/base/transform.py","src/modopt/base/types.py"],[("signal processing","src/modopt/signal"),("mathematics","src/modopt/math"),("array utilities","src/modopt/base")],
"return values, arguments after the call")
p("C11","Operators answer from their arguments and settings alone",
"Proximity, linear and gradient operators return, for given arguments and current settings, the answer a freshly built operator would return, whatever calls, failures or interrupted calls preceded it; they do not modify their arguments or earlier answers. In particular internal state kept for speed (estimated ranks, cached shapes, stored weights) never changes an answer, and operators sharing the same data or filters do not affect one another.",
["histories","fault_sequences"],"every history of calls with varying arguments, settings changes and interruptions on one or several operator objects",
"tests build an operator, call it once and compare with a constant",
["src/modopt/opt/proximity.py","src/modopt/opt/linear/base.py","src/modopt/opt/linear/wavelet.py","src/modopt/opt/gradient.py","src/modopt/signal/svd.py"],[("proximity operators","src/modopt/opt/proximity.py"),("linear operators","src/modopt/opt/linear"),("gradient operators","src/modopt/opt/gradient.py")],
"return values of op, adj_op, cost and gradient calls")
p("C12","Seeded randomness is reproducible and leaves ambient random state alone",
"Noise generation, adjointness testing and the power method give identical results for identical seeds, whatever other random draws happen before, between or concurrently, use a supplied generator as the only source of randomness, and neither read nor disturb the process-wide random state. A generator passed in advances, so consecutive draws are fresh, while an integer seed gives the same draw each time.",
["schedules","histories","configurations"],"every seed, generator, interleaving with other random consumers and state of the global random generators",
"tests fix one seed and compare one draw",
["src/modopt/signal/noise.py","src/modopt/signal/validation.py","src/modopt/math/matrix.py"],[("noise","src/modopt/signal/noise.py:add_noise"),("adjoint test","src/modopt/signal/validation.py:transpose_test"),("power method start vector","src/modopt/math/matrix.py:PowerMethod")],
"returned arrays, operator arguments, global random state")
p("C13","Power method is bounded, resumable and consistent under operator failures",
"The power method applies the operator at most the requested number of times per call, stops at the first change within tolerance, and its estimate and stored inverse are always a matching pair produced by the documented normalised iteration. If the operator raises at any application, the error propagates and the previously published pair is still in place and usable.",
["histories","fault_sequences"],"every operator, tolerance, iteration limit and initial vector, every sequence of further calls, every failing application",
"tests use one well-conditioned operator that never fails",
["src/modopt/math/matrix.py","src/modopt/opt/gradient.py"],[("iteration","src/modopt/math/matrix.py:PowerMethod.get_spec_rad")],
"operator calls, spectral radius attributes")
p("C14","Reweighting happens exactly as often as asked and is all-or-nothing",
"A primal-dual run with reweighting updates the weights exactly the requested number of times, once after each round of iterations and from that round's result, with the documented formula always relative to the original weights, and the proximity operator sharing those weights sees every update. A reweighting or round that fails leaves the weights of the last completed update intact.",
["histories","fault_sequences"],"every number of rounds and reweightings, data history, and failure of any operator or reweighting call",
"tests reweight once; compounding over rounds and failures in between are not observed",
["src/modopt/opt/reweight.py",A+"primal_dual.py","src/modopt/opt/proximity.py"],[("reweighting formula","src/modopt/opt/reweight.py:cwbReweight.reweight"),("rounds",A+"primal_dual.py:Condat.iterate"),("weights shared with thresholding","src/modopt/opt/proximity.py:SparseThreshold")],
"weights seen by the proximity operator at each call")
p("C15","Batched parallel wavelet transforms are independent of the schedule",
"A multi-channel wavelet transform gives, for any number of worker jobs, any order and interleaving in which channels are processed, and any history of earlier transforms, exactly the per-channel single transforms in channel order, and the inverse recovers every channel. A worker failure is reported to the caller, and the transform remains usable afterwards.",
["schedules","fault_sequences","configurations"],"every number of channels and jobs, completion order, worker interleaving and worker failure",
"the batched path has no test at all, and completion orders cannot be forced by a test",
["src/modopt/opt/linear/wavelet.py"],[("batched transform and inverse","src/modopt/opt/linear/wavelet.py:CPUWaveletTransform"),("parallel workers","src/modopt/opt/linear/wavelet.py:joblib Parallel")],
"coefficients and reconstructed channels")
p("C16","Log files are complete, ordered, separate and released",
"Every message logged through an open log is in that log's file, exactly once, in order, whatever its level, as soon as the logging call returned, so a later crash does not lose it, and no message reaches another log's file; errors handed to the error reporter are written to the log given. Closing a log writes the completion record, detaches all of its outputs and releases the file, and setting it up again starts without leftovers, also when a disk error happened in between.",
["histories","crash_points","fault_sequences"],"every history of set-up, logging, error reporting and closing over several logs, with a crash, a full disk or a write error at any point",
"the log test writes one line to one log on a healthy disk",
["src/modopt/interface/log.py","src/modopt/interface/errors.py"],[("set-up and closing","src/modopt/interface/log.py:set_up_log,close_log"),("error reporting","src/modopt/interface/errors.py:catch_error")],
"bytes in the log files, open file descriptors")
p("C17","External wavelet transform is all-or-nothing and leaves no files behind",
"A call that delegates to the external transform program returns the complete coefficients that program wrote for exactly this input and options, or raises; it never returns partial or stale data. Whatever happens (program missing, crashing, reporting an error, writing nothing or a truncated file, being interrupted, disk errors, name collisions, concurrent calls), no temporary file of its own remains and no pre-existing file is changed or removed, except for the documented option to keep the output.",
["fault_sequences","schedules","crash_points"],"every behaviour of the external program, every disk failure, every pre-existing file, and every interleaving of concurrent calls",
"the external program is not available to tests, so the code runs in none of them",
["src/modopt/signal/wavelet.py","src/modopt/interface/errors.py"],[("program invocation and temporary files","src/modopt/signal/wavelet.py:call_mr_transform,execute"),("executable lookup","src/modopt/interface/errors.py:is_executable"),("filters","src/modopt/signal/wavelet.py:get_mr_filters")],
"returned arrays, directory contents, arguments passed to the program")
p("C18","Saving a cost plot writes the requested file and releases everything",
"Plotting a cost history to a file either leaves a complete image at the requested name with the data given and no open figure, or raises and leaves no open figure behind; figures the user has open are untouched, and earlier plots are unaffected. Repeated plots and failures do not accumulate resources.",
["fault_sequences","histories"],"every sequence of plots, data, and disk errors at any write, with any other figures open",
"plotting is excluded from the tests",
["src/modopt/plot/cost_plot.py","src/modopt/opt/cost.py"],[("plot output","src/modopt/plot/cost_plot.py:plotCost"),("cost object entry point","src/modopt/opt/cost.py:CostParent.plot_cost")],
"files written, open figures and descriptors")
p("C19","A missing or failing compute backend degrades safely",
"Requesting a compute backend that is not installed, cannot be imported or is not known gives a warning and the same results as the default backend, for every solver and the power method. A backend that is present is the one used: arrays convert to and from it with unchanged values and type, an array already there is returned as it is, and forward-backward, POGM, Condat and ADMM solvers and the power method keep their iterates on it and compute what the default backend computes. An allocation failure on the device during a transfer or in an operator reaches the caller as an error, after which a retried call gives the result it would have given.",
["configurations","fault_sequences"],"every combination of installed and missing backends, and device allocation failures at any transfer or operator call",
"no accelerator library is installed where tests run",
["src/modopt/base/backend.py",A+"base.py"],[("backend selection and conversion","src/modopt/base/backend.py"),("solver set-up",A+"base.py:SetUp")],
"array modules used, warnings, iterates")
p("C20","Observing a run does not change it",
"Verbose output, progress bars, cost printing, registered metrics, their call period and the clock have no effect on the iterates, the stopping iteration (unless early stopping is requested) or the final result of any solver. The output channel failing while a progress bar or message is written never corrupts the solver: the run can be resumed on the same trajectory.",
["configurations","fault_sequences","histories"],"every combination of observation options for every solver, every clock behaviour, and output failures at any write",
"tests do not compare runs with and without observation",
ALG+["src/modopt/opt/cost.py","src/modopt/base/observable.py"],[("progress bar and verbose output",A+"base.py:_run_alg,_iterations"),("cost printing","src/modopt/opt/cost.py"),("metric observers","src/modopt/base/observable.py")],
"operator arguments and results of twin runs")
p("C30","Solvers reach the minimiser whatever happened on the way",
"Under the documented step-size conditions and for strongly convex problems built from the package's own gradient, proximity, linear and cost operators, forward-backward (plain, with every FISTA variant and restart strategy), generalised forward-backward, POGM, Condat's primal-dual, vanilla and momentum gradient descent and ADMM reach the minimiser of the stated problem within a bounded number of iterations after the last disturbance. Disturbances are: calls of any length, early stops by cost or metrics, operators that fail or answer wrongly for a while, parameter updates, reweighting and clock jumps; none of them moves the limit or prevents progress. The cost reported at the end is the minimum of the problem.",
["histories","fault_sequences","configurations"],"every solver with every pairing of operators, step sizes within the documented bounds, every finite sequence of disturbances",
"tests start on the solution of two trivial problems and run undisturbed",
ALG+["src/modopt/opt/proximity.py","src/modopt/opt/gradient.py","src/modopt/opt/cost.py","src/modopt/opt/reweight.py"],[("update steps and restarts",A+"*.py:_update"),("proximity operators scale with the step factor","src/modopt/opt/proximity.py:_op_method"),("data-fidelity gradient and cost","src/modopt/opt/gradient.py:GradBasic"),("cost terms","src/modopt/opt/proximity.py:_cost_method")],
"x_final and the cost after the undisturbed iterations, against an independent minimiser")
p("C31","Missing optional packages only disable what needs them",
"With any subset of the optional packages (astropy, matplotlib, scikit-image, scikit-learn, PyWavelets, joblib, termcolor, pyfftw) missing, or installed but failing with an ImportError, every module of the package still imports, and every operation that does not need a missing package gives the results of a full installation, whatever was refused or failed before. Operations that need one either fall back as documented (astropy convolution to SciPy with a warning, coloured messages to plain text) or are refused with an import error (WaveletTransform: or a ValueError) that leaves no file or other trace. A failure inside an installed package reaches the caller unchanged or chained, and the operation works when repeated.",
["configurations","fault_sequences","histories"],"every combination of missing and broken packages, every order of operations, a failure at any library call",
"the test suite runs in one full installation only",
["src/modopt/math/convolve.py","src/modopt/math/stats.py","src/modopt/math/metrics.py","src/modopt/opt/proximity.py","src/modopt/opt/linear/wavelet.py","src/modopt/plot/cost_plot.py","src/modopt/interface/errors.py","src/modopt/signal/wavelet.py"],
[("guarded imports","src/modopt/math/convolve.py:import_astropy"),("guarded imports","src/modopt/math/metrics.py:import_skimage"),("guarded imports","src/modopt/opt/proximity.py:import_sklearn"),("guarded imports","src/modopt/opt/linear/wavelet.py:pywt_available"),("guarded imports","src/modopt/plot/cost_plot.py:import_fail"),("guarded imports","src/modopt/interface/errors.py:import_fail")],
"results, errors and files per operation in each simulated installation")
# not applicable
def na(id,title,st,files,mech):
    p(id,title,st,["inputs"],"every valid input","holds for every input, tests sample a few",files,mech)
na("C21","Proximity operators solve their defining minimisation","Each proximity operator returns the minimiser of its regulariser plus half the squared distance, for every input, weight and step factor.",["src/modopt/opt/proximity.py"],[("operators","src/modopt/opt/proximity.py")])
na("C22","Linear and gradient operators come with exact adjoints","For every linear operator the adjoint satisfies the inner-product identity, and each data-fidelity gradient equals the adjoint applied to the residual.",["src/modopt/opt/linear/base.py","src/modopt/opt/linear/wavelet.py","src/modopt/opt/gradient.py"],[("operators","src/modopt/opt/linear")])
na("C23","Array and map transforms are exact inverses of each other","Splitting, merging, padding, cube-to-map and cube-to-matrix conversions reproduce the original data when undone.",["src/modopt/base/transform.py","src/modopt/base/np_adjust.py"],[("transforms","src/modopt/base/transform.py")])
na("C24","Image quality metrics and statistics match their definitions","MSE, NRMSE, PSNR, SNR, SSIM, variance, standard deviation and kernel functions equal their textbook definitions, with masks.",["src/modopt/math/metrics.py","src/modopt/math/stats.py"],[("metrics","src/modopt/math/metrics.py")])
na("C25","Matrix routines match linear-algebra definitions","Gram-Schmidt output is orthonormal and spans the input, the nuclear norm is the sum of singular values, projections and rotations obey their identities.",["src/modopt/math/matrix.py"],[("matrix","src/modopt/math/matrix.py")])
na("C26","Thresholding and positivity obey their definitions","Soft and hard thresholding and positivity projection act elementwise as defined for every input.",["src/modopt/signal/noise.py","src/modopt/signal/positivity.py"],[("threshold","src/modopt/signal/noise.py:thresh")])
na("C27","Convolution and filter kernels are correct","Convolution methods agree with the mathematical convolution, stacks convolve per image, kernels have the requested scale and rotation.",["src/modopt/math/convolve.py","src/modopt/signal/filter.py","src/modopt/signal/wavelet.py"],[("convolution","src/modopt/math/convolve.py")])
na("C28","Singular value thresholding approximates the input as requested","Principal-component counts and thresholded reconstructions match a direct singular value decomposition.",["src/modopt/signal/svd.py"],[("svd","src/modopt/signal/svd.py")])
na("C29","Invalid argument types and values are rejected","Type and value checks raise the documented error for every invalid argument and accept every valid one.",["src/modopt/base/types.py"],[("checks","src/modopt/base/types.py")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    try: jsonschema.validate(x,s)
    except Exception as e: print(x["id"],str(e)[:300])
print(len(P))
