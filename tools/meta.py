"""Writes properties.jsonl and MANIFEST.json (kept in one place so they agree)."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
S = "src/glum/"


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, state=None, observe=None, na=None):
    return dict(locals())


PROPS = [
    P(
        "C01",
        "Cross-validation result is independent of how its jobs are executed",
        "A cross-validated regressor ends up with the same selected penalty, coefficients, path records and predictions whether its fold fits run one after another, interleaved on threads, or in worker processes that receive copies of the data, in any order and on any number of workers. A fold fit that fails on a worker makes the whole fit fail with that error; it never yields a fitted model.",
        ["schedules", "fault_sequences", "inputs"],
        "every joblib backend kind, worker count, job order, batch size, preemption between the fold fits' Python steps, worker crash point, and every supported configuration of the regressor (folds, penalties, weights, offsets, bounds, scaling, storage)",
        "The tests run cross-validation with n_jobs=None or once with n_jobs=2 on processes; they never run it on a shared-memory backend, never choose an interleaving and never fail a worker.",
        [S + "_glm_cv.py", S + "_glm.py"],
        [("fold fits dispatched through joblib", "_glm_cv.py: GeneralizedLinearRegressorCV.fit / _fit_path"), ("solver drivers that write on the estimator", "_glm.py: _solve, _solve_regularization_path")],
        "deterministic simulation: simulated joblib backend (preemptive threads, isolated processes, crashes) with seeded schedules, compared with sequential execution",
        "Seeded exploration of schedules; preemption between Python lines of glum only. joblib itself is real, its backend is simulated. loky/dask internals are trusted.",
    ),
    P(
        "C02",
        "Compiled parallel loops give team-size- and schedule-independent results",
        "The gradients, Hessian weights, deviances and log-likelihoods that the compiled loops compute, and the fits built on them, do not depend on how many threads the parallel regions get or how those threads interleave; only the rounding of a sum may differ. No parallel region lets two threads touch one memory location without synchronisation when one of them writes.",
        ["schedules", "inputs", "configurations"],
        "every team size, chunking and interleaving of the threads of each parallel region at the granularity of single memory accesses, for every distribution/link kernel, both precisions and every size",
        "The tests run with one OpenMP thread or with whatever schedule the machine happens to produce, and a lost update in a reduction shows only under a particular interleaving.",
        [S + "_functions.pyx", S + "_cd_fast.pyx", S + "_distribution.py"],
        [("prange loops with reductions", "_functions.pyx: all *_eta_mu_deviance, *_rowwise_gradient_hessian, *_deviance, *_log_likelihood"), ("changed-Hessian-rows search", "_cd_fast.pyx: identify_active_rows")],
        "deterministic simulation: OpenMP runtime replaced by a seeded cooperative scheduler that preempts at instrumented memory accesses",
        "Seeded exploration; compiler instrumentation (-fsanitize=thread) supplies the yield points; gcc's OpenMP outlining is trusted, tabmat's own parallel loops run on one thread.",
    ),
    P(
        "C03",
        "Concurrent queries of a fitted model answer as if asked alone",
        "Any number of threads may ask one fitted regressor for predictions, scores, inference tables, information criteria, diagnostics, parameters or a pickle at the same time, and each gets the answer it would get with no other thread present. Afterwards the model still answers as before.",
        ["schedules", "inputs"],
        "every set of queries and every interleaving of their Python steps, for models fitted on arrays, sparse matrices, data frames and formulas",
        "No test queries a model from two threads.",
        [S + "_glm.py", S + "_glm_cv.py", S + "_utils.py"],
        [("lazily cached and stored answers", "_glm.py: _get_info_criteria, covariance_matrix"), ("data frame alignment", "_glm.py: _convert_from_df, _utils.py: align_df_categories")],
        "deterministic simulation: seeded preemptive scheduler over real threads",
        "Seeded exploration; preemption between Python lines (and bytecodes in a share of the runs) of glum; third-party code runs atomically.",
    ),
    P(
        "C04",
        "Concurrent fits of separate models do not influence each other",
        "Models that are distinct estimators may be fitted at the same time on threads, also when they share the data, penalty arrays, bounds and distribution and link objects, and each ends up exactly as if it had been fitted alone. A fit that fails or is interrupted does not disturb the others.",
        ["schedules", "fault_sequences", "inputs"],
        "every interleaving of the Python steps of two to four fits, every subset of shared argument objects, every crash point of one of them",
        "No test fits two models at once; sharing of argument objects is never exercised under interleaving.",
        [S + "_glm.py", S + "_glm_cv.py", S + "_solvers.py", S + "_utils.py", S + "_distribution.py"],
        [("in-place preparation of penalties, bounds and weights", "_utils.py: standardize; _glm.py: setup_p1, setup_p2"), ("family and link objects taken from the caller", "_glm.py: _set_up_for_fit")],
        "deterministic simulation: seeded preemptive scheduler over real threads with injected crashes",
        "Seeded exploration; preemption between Python lines of glum; third-party code runs atomically.",
    ),
    P(
        "C05",
        "Fitting and querying never modify what the caller owns",
        "No call modifies the data, target, weights, offsets, clusters, penalty matrices, bounds, constraint matrices, start values, alphas, family or link objects the caller passed, nor the estimator's constructor parameters, arrays handed out by earlier calls, the global random state, the floating-point error state or the warning filters. This also holds when the call fails or is interrupted at any point.",
        ["inputs", "crash_points", "histories"],
        "every input and option (except an explicit copy_X=False), every call in a history of fits and queries, and every crash point within it",
        "The tests check a handful of inputs for copying on success paths; none checks after an exception or an interrupt.",
        [S + "_glm.py", S + "_glm_cv.py", S + "_utils.py", S + "_validation.py", S + "_solvers.py"],
        [("copies and conversions of the inputs", "_glm.py: _set_up_and_check_fit_args, _should_copy_X; _validation.py"), ("in-place standardization", "_utils.py: standardize, unstandardize, standardize_warm_start")],
        "deterministic simulation with crash injection: every owned object is fingerprinted around seeded call histories",
        "Seeded exploration of call histories and crash points at Python lines of glum.",
    ),
    P(
        "C06",
        "A fit depends only on its arguments, not on the estimator's history",
        "Without warm start, fitting an estimator gives the same coefficients, predictions, inference, information criteria, names and warnings as fitting a fresh estimator with the same parameters on the same data. This holds whatever happened to the estimator before: fits on other data or other kinds of data, rejected or interrupted fits, changed parameters, queries, copies and pickling.",
        ["histories", "crash_points", "inputs"],
        "every history of fits, failed fits, fits crashed at any point, queries, parameter changes, copies and pickles before the fit, and every kind of data before and after",
        "The tests refit an estimator in a few fixed ways; leftovers of a history of other kinds of data or of an interrupted fit are never looked for.",
        [S + "_glm.py", S + "_glm_cv.py"],
        [("fitted state kept on the estimator", "_glm.py: _set_up_and_check_fit_args, fit, _get_info_criteria; _glm_cv.py: fit"), ("start values", "_glm.py: _get_start_coef")],
        "deterministic simulation with crash injection: seeded histories against a fresh-estimator reference model",
        "Seeded exploration of histories and crash points.",
    ),
    P(
        "C07",
        "Queries leave a fitted model as it was, even when they are cut short",
        "Predictions, scores, inference, information criteria, diagnostics and copies are reads: however many are made, in whatever order, with whatever data, and even when one fails or is interrupted midway, the model afterwards gives the same answers to every question as if none had been asked. Asking the same question twice gives the same answer.",
        ["histories", "crash_points", "inputs"],
        "every sequence of queries with valid, odd and invalid data and every crash point inside them",
        "The tests ask a fitted model one or two questions; none interrupts a query and looks at the model afterwards.",
        [S + "_glm.py", S + "_glm_cv.py", S + "_utils.py"],
        [("answers cached on the estimator", "_glm.py: _compute_information_criteria, covariance_matrix"), ("prediction-time conversion", "_glm.py: _convert_from_df, _compute_linear_predictor")],
        "deterministic simulation with crash injection: seeded query histories against an untouched twin of the model",
        "Seeded exploration of query histories and crash points.",
    ),
    P(
        "C08",
        "A model survives pickling and process restart unchanged",
        "A regressor that is pickled at any point of its life and restored in another process, in any supported pickle protocol, gives the same answers and continues (refit, warm start, further queries) exactly as the original would have. Models stored by older releases, which lack later attributes, stay usable.",
        ["histories", "crash_points", "configurations"],
        "every point of a life of fits, queries, failed and interrupted fits at which the process may be restarted, every pickle protocol, every kind of data and model, and the attribute sets of older releases",
        "The tests unpickle a few stored files; they do not restart between arbitrary steps or compare the continuation.",
        [S + "_glm.py", S + "_glm_cv.py", S + "_distribution.py", S + "_link.py"],
        [("restoring old state", "_glm.py: __setstate__, categorical_levels_"), ("state a fit and a query need", "_glm.py, _glm_cv.py: attributes set by fit")],
        "deterministic simulation: seeded process crash/restart with only pickled state surviving, against an uninterrupted twin",
        "Seeded exploration; restarts run in a freshly executed interpreter with another hash seed that imports glum anew.",
    ),
    P(
        "C09",
        "A fit without a convergence warning is optimal, also under solver faults",
        "If fit returns without a convergence warning or error, the coefficients are finite, respect the bounds and satisfy the optimality conditions of the penalised likelihood to the requested gradient tolerance; this also holds when linear solves fail or are inaccurate, when iteration budgets are tight and when the start is poor. Every fit ends within its iteration budget, and on well-posed problems it converges.",
        ["fault_sequences", "inputs", "configurations"],
        "every supported family, link, solver, storage, penalty, weighting, offset, bound and scaling configuration, and every sequence of failing or inaccurate linear solves, budgets and starts",
        "The tests compare a few fixed problems with stored coefficients; none makes a linear solve fail, and none checks optimality independently of glum's own stopping rule.",
        [S + "_solvers.py", S + "_cd_fast.pyx", S + "_glm.py", S + "_utils.py", S + "_distribution.py", S + "_functions.pyx"],
        [("outer and inner iterations and stopping rules", "_solvers.py: _irls_solver, check_convergence, line_search, _least_squares_solver, _cd_solver"), ("coordinate descent", "_cd_fast.pyx: enet_coordinate_descent_gram, _norm_min_subgrad")],
        "deterministic simulation with fault injection in linear algebra; independent optimality oracle",
        "Seeded exploration; the oracle evaluates the first-order conditions from the documented objective in float64 and shares no code with glum.",
    ),
    P(
        "C10",
        "An interrupted optimisation can be resumed and reaches the same optimum",
        "Continuing from where an earlier fit stopped (warm start or explicit start values, after an exhausted iteration budget, a crash, a restart or a change of solver, penalty or bounds) reaches the same optimum as an uninterrupted fit, within a bounded number of resumptions. Along the way the objective never increases beyond rounding, and an exhausted budget is always reported.",
        ["histories", "crash_points", "configurations"],
        "every splitting of the iterations over budgets, every crash point between and inside the fits, every mixture of solvers and of warm start and explicit start values, for convex problems",
        "The tests warm-start a few models once from a converged fit.",
        [S + "_glm.py", S + "_solvers.py", S + "_utils.py"],
        [("start values", "_glm.py: _get_start_coef; _utils.py: standardize_warm_start"), ("monotone line search", "_solvers.py: line_search")],
        "deterministic simulation: seeded checkpoint/crash/resume histories, bounded liveness",
        "Seeded exploration; convex families only, so that the optimum is unique.",
    ),
    P(
        "C11",
        "Random coordinate selection never affects the answer beyond tolerance",
        "With random coordinate selection, every stream of random numbers leads to the same optimum within the solver's tolerance, a fixed integer seed makes fits reproducible bit for bit, and no fit with an explicit seed reads or advances the global random state. With cyclic selection the random state has no influence at all.",
        ["schedules", "inputs"],
        "every random stream, including adversarial ones (constant, alternating, starving), every selection mode and every L1-penalised problem",
        "The tests use one or two seeds of a fair generator.",
        [S + "_cd_fast.pyx", S + "_solvers.py", S + "_glm.py", S + "_glm_cv.py"],
        [("random feature choice", "_cd_fast.pyx: enet_coordinate_descent_gram"), ("random state handling", "_glm.py: _set_up_for_fit; _solvers.py: _cd_solver")],
        "deterministic simulation: the random source is replaced by seeded and adversarial streams",
        "Seeded exploration; the random source is behind numpy's RandomState interface, which the simulator subclasses.",
    ),
    P(
        "C12",
        "Clocks, progress output and diagnostics never influence results",
        "What a fit computes does not depend on the clock (however it jumps, stalls or runs backwards), on the verbosity, on whether the output streams accept what is written, or on logging and warning configuration; diagnostics report the iterations that took place. Verbose fits succeed wherever silent ones do as long as the output can be written; a fit whose output cannot be written gives the same result, or fails with that error and leaves the estimator refittable.",
        ["fault_sequences", "configurations", "inputs"],
        "every clock behaviour, verbosity level and output fault during fits of every solver and kind",
        "The tests run with the real clock and mostly silent fits.",
        [S + "_solvers.py", S + "_glm.py", S + "_glm_cv.py"],
        [("timing of the iterations", "_solvers.py: timeit, IRLSState._record_iteration"), ("progress display", "_solvers.py: ProgressBar; _glm.py: _solve_regularization_path")],
        "deterministic simulation: simulated clock and output streams",
        "Seeded exploration; time.time, perf_counter and monotonic are simulated, tqdm is real.",
    ),
    P(
        "C13",
        "Each point of a regularization path is that penalty's own solution",
        "Every point of a regularization path, however the penalties are ordered, spaced or repeated and whatever the path visited before, is the optimum for its own penalty: the same as a separate fit at that penalty within tolerance. Predictions selected by index or by penalty value use exactly that point, and generated paths start where all penalised coefficients are zero and decrease to the requested end.",
        ["histories", "inputs", "configurations"],
        "every sequence of penalties as the history of warm starts along the path, also with early stopping budgets, for path searches and cross-validated regressors",
        "The tests check fixed decreasing paths of one or two families.",
        [S + "_glm.py", S + "_glm_cv.py", S + "_solvers.py"],
        [("path driver", "_glm.py: _solve_regularization_path, _get_alpha_path"), ("selection of a path point", "_glm.py: _find_alpha_index, _resolve_alpha_index, linear_predictor")],
        "deterministic simulation: seeded penalty histories against per-point optimality and separate fits",
        "Seeded exploration with an independent optimality oracle.",
    ),
    P(
        "C14",
        "How training data is delivered does not change the fit",
        "The fit depends on the weighted set of observations, not on how it is delivered: row order, an observation split into several with the same total weight or merged back, zero-weight rows, overall weight scale, column order, and the container, storage layout and precision the matrix arrives in change coefficients only within the solver's tolerance.",
        ["inputs", "configurations", "fault_sequences"],
        "every reordering, duplication with compensating weights and re-encoding of the same observations, for every family, penalty, bound, scaling and solver configuration",
        "The tests compare a few storage formats on one data set and do not reorder or duplicate deliveries.",
        [S + "_glm.py", S + "_utils.py", S + "_validation.py", S + "_distribution.py", S + "_functions.pyx"],
        [("conversion and weighting of the inputs", "_glm.py: _set_up_and_check_fit_args; _validation.py: check_weights"), ("standardization", "_utils.py: standardize")],
        "deterministic simulation: seeded reordering, duplication, splitting and re-encoding of the delivered batches",
        "Seeded exploration; tolerance derived from strong convexity of the problems drawn.",
    ),
    P(
        "C15",
        "Served predictions are independent of batching, order and replica",
        "A prediction for an observation depends only on the model and that observation: it is the same whether it is served alone or in any batch, in any order, once or repeatedly, by the original or a restored replica, from any container holding the same columns (for formula models in any column order), and whatever categories the batch's own encoding lists. A batch with a category the model does not know, or missing values it cannot handle, is rejected or treated as documented, never silently mapped to another category.",
        ["inputs", "histories", "fault_sequences"],
        "every partition of the requests into batches, reordering, duplication, replica restart and category encoding of a batch",
        "The tests predict on whole data sets, and on a few fixed category encodings.",
        [S + "_glm.py", S + "_utils.py"],
        [("prediction-time conversion", "_glm.py: _convert_from_df, _compute_linear_predictor"), ("category alignment", "_utils.py: align_df_categories, add_missing_categories")],
        "deterministic simulation: a seeded serving system with reordering, duplication, batching and replica restarts",
        "Seeded exploration against a per-row reference computed from the coefficients by name.",
    ),
    P(
        "C16",
        "The benchmark runner's timeout and timing survive any clock and signal timing",
        "A benchmark run whose executions finish in time reports the duration and the result of one and the same execution (the one closest to the median after the warm-up), an execution that takes longer than the timeout is cut off, not earlier and not later, and TimeoutError is raised if none finished - wherever the alarm strikes and however the process stalls. Afterwards no alarm is pending and the previous signal handler is in place. Reported times are those of the execution and never negative, however the wall clock jumps.",
        ["schedules", "fault_sequences"],
        "every instant at which the alarm may be delivered, every clock jump and every outcome of the timed function",
        "The tests do not run the timeout at all.",
        ["glum_benchmarks/util.py", "glum_benchmarks/run_benchmarks.py"],
        [("alarm and timing around the benchmarked call", "glum_benchmarks/util.py: runtime, timeout handling")],
        "deterministic simulation: simulated clock and alarm signal",
        "Seeded exploration; the alarm is delivered by the simulator at chosen Python lines.",
    ),
    P(
        "C17",
        "Stored benchmark results are complete or absent, and found under their name",
        "After a crash of the process, a full disk, an I/O error or a short write at any point while benchmark results are stored, every result file present under a result's name is a complete result of that benchmark, results stored earlier are still there unless clearing was asked for, other benchmarks' results are not affected, and collecting the results succeeds and lists exactly the stored results, in whatever order the directory is read; the table of results is replaced by a complete one or not at all. The parameters encoded in a result's file name are recovered exactly, and different parameters never share a file. Comparing a stored run with itself shows no regression, and with a uniformly slower run one per benchmark.",
        ["crash_points", "fault_sequences", "inputs"],
        "every system call at which the process may die or the disk may fail while results are written, and every combination of benchmark parameters",
        "The tests never fail a write or stop the process.",
        ["glum_benchmarks/run_benchmarks.py", "glum_benchmarks/compare_results.py", "glum_benchmarks/util.py"],
        [("result files", "glum_benchmarks/run_benchmarks.py: run_all_benchmarks, analyze_results; glum_benchmarks/compare_results.py; glum_benchmarks/util.py: BenchmarkParams, get_params_from_fname")],
        "deterministic simulation: simulated disk with crashes, ENOSPC and torn writes",
        "Seeded exploration; file operations of the benchmark package go through a simulated file layer over a scratch directory.",
    ),
    P(
        "C18",
        "Bounds and constraints hold in every returned model",
        "Whatever starting point, warm start, earlier unconstrained fit, iteration budget, solver, scaling or path preceded it, a fit with coefficient bounds returns coefficients within the bounds, and a converged fit with linear inequality or monotonicity constraints satisfies them within tolerance. If that cannot be achieved the fit warns or fails.",
        ["histories", "inputs", "configurations"],
        "every history of starts, budgets and changes of bounds, for every solver that supports bounds or constraints, and every storage and scaling",
        "The tests check bounds from the default start only.",
        [S + "_glm.py", S + "_glm_cv.py", S + "_solvers.py", S + "_cd_fast.pyx", S + "_utils.py"],
        [("bounds on the solver's scale", "_utils.py: standardize; _glm.py: _get_start_coef"), ("bounded and constrained solvers", "_cd_fast.pyx: enet_coordinate_descent_gram; _solvers.py: _trust_constr_solver, _irls_ls_monotonic")],
        "deterministic simulation: seeded histories of starts, budgets and bounds with feasibility as invariant",
        "Seeded exploration.",
    ),
    P(
        "C19",
        "The cross-validated choice agrees with the recorded fold results",
        "The penalty a cross-validated regressor selects is the one whose recorded mean out-of-fold deviance is smallest, every recorded out-of-fold and in-fold deviance is that of the recorded fold coefficients on that fold's rows, and the final coefficients are the optimum on all data for the selected penalty. This holds for every fold assignment and order of the folds.",
        ["inputs", "schedules", "configurations"],
        "every assignment of rows to folds, fold order, penalty grid and mixing-parameter list, and every configuration of weights, offsets, scaling and storage",
        "The tests check shapes and a few stored values for one splitter.",
        [S + "_glm_cv.py"],
        [("selection and refit", "_glm_cv.py: GeneralizedLinearRegressorCV.fit")],
        "deterministic simulation: seeded fold schedules against an independent recomputation",
        "Seeded exploration; deviances and optimality recomputed without glum code.",
    ),
    P(
        "C20",
        "A benchmark problem's data depend on the problem alone",
        "Loading the data of a benchmark problem (its simulated, housing, insurance or formula data) gives the same data for the same parameters whichever process, thread, order or state of the global random streams it happens in, with or without a cache, whatever happened to data loaded earlier; it leaves the global random streams as they were; and a crash or disk error while raw data or cached data are stored never leaves something that a later load takes for complete or that makes later loads fail.",
        ["inputs", "histories", "schedules", "crash_points", "fault_sequences"],
        "every problem and its parameters (rows, noise, distribution, set-up, storage, seed), every history and interleaving of loads, every state of the global random streams, every point at which storing is cut short",
        "The tests load each problem once, in one process whose random state is what it happens to be, and never interrupt a download or a write.",
        ["glum_benchmarks/problems.py", "glum_benchmarks/data/create_housing.py", "glum_benchmarks/data/create_insurance.py", "glum_benchmarks/data/simulated_glm.py"],
        [("loading and caching", "problems.py: load_data, load_formula_data"), ("raw data", "create_housing.py, create_insurance.py: create_*_raw_data, add_noise"), ("simulated data", "simulated_glm.py: simulate_mixed_data, simulate_glm_dataset")],
        "deterministic simulation: seeded histories, thread schedules and disk faults against a load in a process of its own",
        "Seeded exploration; data compared bit for bit with a load in a fresh process that has another hash seed.",
    ),
    P(
        "C21",
        "Documentation updates are complete or absent, exact, and repeatable",
        "Updating the documentation with benchmark figures (glum_benchmarks.run_benchmarks.update_docs, or main with update_docs) leaves each document (benchmarks.rst, index.rst, README.md), each copied figure and the configuration snapshot either as it was or as the undisturbed update leaves it, whatever crash, disk error or full disk cuts it short, and reports failure when something was not written. Only what lies between the marker comments changes, the n-th figure group fills the n-th marker block, figures that do not exist are left out, and every figure a new document shows has been copied. Repeating the update after any such history yields what an undisturbed update yields, and repeating it again changes nothing.",
        ["inputs", "histories", "crash_points", "fault_sequences"],
        "every set of figures, settings and documents with any arrangement of markers, every sequence of updates with changing figures and documents, every point at which an update is cut short",
        "The tests never run update_docs, and no test interrupts a write.",
        ["glum_benchmarks/run_benchmarks.py", "glum_benchmarks/config.py"],
        [("updating the documents", "run_benchmarks.py: update_docs"), ("pipeline and snapshot", "run_benchmarks.py: main")],
        "deterministic simulation: seeded disk faults and crashes over sequences of updates, against a small reference model of the documents",
        "Seeded exploration; every file compared byte for byte with an independent model of the update.",
    ),
    P(
        "N01",
        "Inference formulas",
        "Covariance matrices, standard errors, confidence intervals and Wald tests equal their textbook definitions for the fitted coefficients.",
        ["inputs"],
        "every fitted unpenalised model and every data set",
        "The tests compare with statsmodels on a few data sets.",
        [S + "_glm.py", S + "_distribution.py"],
        [("covariance and tests", "_glm.py: covariance_matrix, wald_test")],
        na="a pure function of the data and the coefficients: no schedule, clock, randomness, I/O or crash point takes part in it, so there is nothing for a simulator to control",
    ),
    P(
        "N02",
        "Distribution and link identities",
        "Link functions are inverse to each other and consistent with their derivatives, and unit deviances, variances and log-likelihoods of the distributions are consistent with one another.",
        ["inputs"],
        "every parameter value and mean in the admissible range",
        "The tests check a grid of values.",
        [S + "_distribution.py", S + "_link.py"],
        [("distribution and link classes", "_distribution.py, _link.py")],
        na="pure numerical identities of stateless functions: no nondeterminism or fault for the simulator to decide (the compiled kernels' scheduling is covered by C02)",
    ),
    P(
        "N03",
        "Formula and monotonicity specifications mean what they say",
        "The design matrix and constraint matrices built from a formula or a monotonicity specification encode exactly the stated terms and orderings.",
        ["inputs", "programs"],
        "every formula and specification",
        "The tests parse a few formulas.",
        [S + "_formula.py", S + "_utils.py", S + "_glm.py"],
        [("formula and constraint construction", "_formula.py: parse_formula; _glm.py: _resolve_monotonic_constraints")],
        na="a pure translation of a specification: no concurrency, time, I/O or fault in it; deciding it would need another technique than simulation",
    ),
]


def main():
    claimed = [p for p in PROPS if p["na"] is None and (V / "vsim" / "props" / f"{p['id'].lower()}.py").exists()]
    lines = []
    for p in PROPS:
        anchors = dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])
        anchors["hook_needed"] = None
        lines.append(
            json.dumps(
                dict(
                    id=p["id"], title=p["title"], statement=p["statement"],
                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=anchors,
                ),
                ensure_ascii=False,
            )
        )
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
    (V / "properties.jsonl").write_text("\n".join(lines) + "\n")
    man = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -m vsim.build plain omp",
        checks=[
            dict(
                property=p["id"],
                quick_cmd=f"./check {p['id']} quick",
                thorough_cmd=f"./check {p['id']} thorough",
                evidence_file=f"evidence/{p['id']}.json",
                technique=p["technique"],
                level="exploration",
                level_note=p["note"],
            )
            for p in claimed
        ],
        not_applicable=[
            dict(property=p["id"], reason=p["na"] or "not built yet") for p in PROPS if p not in claimed
        ],
        notes="Every check builds glum's extensions from /repo's working tree into /verif/.build and imports the Python sources straight from /repo/src; nothing in /repo is written. No hooks in /repo are needed.",
    )
    (V / "MANIFEST.json").write_text(json.dumps(man, indent=1, ensure_ascii=False) + "\n")
    print(len(claimed), "claimed of", len(PROPS))


if __name__ == "__main__":
    main()
