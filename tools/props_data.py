"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""

S = "src/mssm/src/python/"
M = "src/mssm/models.py"


def P(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    return dict(
        id=id,
        title=title,
        statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe),
            hook_needed=None,
        ),
    )


CLAIMED = [
    P(
        "C01",
        "A fit streamed from files equals the fit of the same rows held in memory",
        "For a strictly additive Gaussian model, giving the data as a list of CSV files yields the same "
        "coefficients, smoothing parameters, edf, scale, fitted values, residuals, covariance and "
        "predictions (with intervals) as giving the concatenated rows as one data frame. "
        "This holds for every way the rows are cut into files (row order, file count and size, missing values, "
        "levels present only in some files, reading options, factor code books), with covariates kept or not "
        "kept in memory, and for every number of loading and fitting processes and every order in which the "
        "workers run.",
        ["inputs", "configurations", "schedules"],
        "all data sets, partitions into files, formulas, process counts, worker schedules",
        "No stable test fits from files; the outcome depends on partition, order, process count and schedule.",
        [S + "gamm_solvers.py", S + "file_loading.py", S + "formula.py", M],
        [
            ("incremental X'X and X'y per row block", S + "gamm_solvers.py:read_XTX, keep_XTX"),
            ("incremental linear predictor", S + "gamm_solvers.py:read_eta, keep_eta"),
            ("reading and merging of per-file summaries", S + "file_loading.py:read_unique, read_cov, read_no_cov"),
            ("row blocks built in worker processes", S + "gamm_solvers.py:form_cross_prod_mp, form_eta_mp"),
        ],
        ["GAMM.coef, .edf, .scale, .penalty, .preds, .hessian, .lvi", "GAMM.predict", "GAMM.get_resid"],
    ),
    P(
        "C02",
        "What a formula learns from files equals what it learns from memory",
        "Setting up a formula from a list of CSV files yields the same variable types, ranges, factor levels and "
        "codes, coefficient names and counts, identifiability constraints, penalties and model matrices as "
        "setting it up from the concatenated rows in memory. It does not depend on the cut into files, "
        "on the number of loading processes, on the order in which workers run, or on Python's string hashing.",
        ["inputs", "configurations", "schedules"],
        "all data sets, partitions, formulas, loading process counts, schedules, hash seeds",
        "No stable test builds a formula from files; hash-order and schedule effects differ from run to run.",
        [S + "formula.py", S + "file_loading.py", S + "terms.py"],
        [
            ("merging of levels and ranges over files", S + "file_loading.py:read_unique"),
            ("constraint accumulation over files", S + "formula.py:_compute_constraint_single_MP"),
            ("data encoding", S + "formula.py:encode_data"),
        ],
        ["Formula getters", "build_penalties", "build_sparse_matrix_from_formula"],
    ),
    P(
        "C03",
        "The model matrix cache never alters a result and never outlives its fit",
        "With caching of model matrix blocks switched on, a fit from files returns exactly what it returns with "
        "caching off. Blocks left by a crashed or power-failed fit, or by fits of other data, "
        "files or process counts, are never used: a fit that finds a cache directory refuses to run and leaves it "
        "untouched, so two concurrent fits sharing a directory are either correct or refused. "
        "A fit that completes removes its cache directory and nothing else.",
        ["crash_points", "schedules", "histories", "configurations"],
        "all crash points inside a fit, schedules of concurrent fits, cache directories, partitions and histories",
        "Caching is off in the stable tests, and no test crashes a process or runs two fits at once.",
        [S + "gamm_solvers.py"],
        [
            ("directory set up and removal", S + "gamm_solvers.py:setup_cache, clear_cache"),
            ("cached block building", S + "gamm_solvers.py:cache_mmat"),
        ],
        ["cache directory contents", "GAMM.fit results"],
        [("SHOULD_CACHE, CACHE_DIR", "whether and where blocks are cached", S + "gamm_solvers.py")],
    ),
    P(
        "C04",
        "A fault while working on files is an error, never a wrong result",
        "If opening, reading, writing or listing a file fails, or a worker pool, a worker or a worker's task fails "
        "while a formula is set up or a model is fitted from files, the call either raises or returns the "
        "fault-free result. No fault leaves worker processes running or changes an input file. "
        "Once faults stop, repeating the fit, on the same model or on a new one, gives the fault-free result.",
        ["fault_sequences", "schedules", "configurations"],
        "all single and multiple fault positions and kinds over the run of a file based fit",
        "Tests never inject faults.",
        [S + "gamm_solvers.py", S + "file_loading.py", S + "formula.py", M],
        [
            ("pools as context managers", S + "gamm_solvers.py, " + S + "file_loading.py"),
            ("exceptions propagate out of the pool", S + "gamm_solvers.py:read_XTX"),
        ],
        ["exceptions of Formula() and GAMM.fit", "fit results", "worker pools alive afterwards"],
    ),
    P(
        "C05",
        "Inverse factors and penalty traces do not depend on worker processes",
        "The inverse of a factor and the trace products that smoothing parameter updates use, computed by several "
        "worker processes over shared memory, equal the serial values for every number of processes and every "
        "worker schedule, for every matrix size and for penalties repeated over many factor levels, null-space "
        "penalties, dropped columns and clustered (approximate) derivatives. "
        "A failing worker, pool or shared memory segment surfaces as an error, inputs are not modified, and no "
        "worker or shared memory segment outlives the call.",
        ["schedules", "inputs", "configurations", "fault_sequences"],
        "all factors, penalties, process counts, schedules and faults",
        "The parallel branch needs thousands of coefficients, which no stable test reaches.",
        [S + "matrix_solvers.py"],
        [
            ("column blocks inverted in parallel", S + "matrix_solvers.py:compute_Linv"),
            ("block solves over shared memory", S + "matrix_solvers.py:compute_B, compute_block_B_shared, compute_block_B_shared_cluster"),
        ],
        ["compute_Linv", "compute_B", "GAMM.fit of models with thousands of coefficients"],
    ),
    P(
        "C06",
        "In-memory fits do not depend on the number of processes",
        "For data held in memory, the model matrix and everything a fit returns are the same whether one process "
        "or several build the matrix and solve the model, for every process count (also more processes than rows), "
        "every worker schedule and every kind of term, including impulse response terms, missing values, offsets "
        "and auto-correlated errors. A fault in the parallel part raises, or leaves the result as it is without "
        "the fault, and the same model can be fitted again once faults stop.",
        ["schedules", "configurations", "inputs", "fault_sequences"],
        "all data sets, formulas, families, process counts, schedules and faults",
        "Stable tests build every matrix in one process.",
        [M, S + "formula.py", S + "terms.py"],
        [
            ("row blocks of the model matrix built in a pool", M + ":GAMM.fit"),
            ("series of an impulse response term built in a pool", S + "terms.py:irf.build_matrix"),
        ],
        ["GAMM.get_mmat", "GAMM.fit results", "build_model_matrix"],
    ),
    P(
        "C07",
        "Hidden semi-Markov computations do not depend on processes or on other series",
        "The log-likelihood, gradient, observation and duration probabilities, transition and initial state "
        "probabilities, decoded states and residuals (forward, predictive, duration) of an HSMMFamily are the same "
        "for every n_cores and every worker schedule, and equal what each series gives on its own: a sum for the "
        "log-likelihood and gradient, one entry per series, in order, otherwise. This holds for every number and length of series, "
        "for transition matrices fixed for all series, fixed per series or estimated, for time-varying models, for "
        "shared parameters, reused model matrices and auto-correlated HMP models, whether series starts are given "
        "to the family or to the call. Calls leave the family and their inputs as they were, so repeating a call, in "
        "any history of calls and after faults, gives the same result, and a fault in a worker raises.",
        ["schedules", "inputs", "histories", "configurations", "fault_sequences"],
        "all families, data, series, process counts, schedules, call histories and faults",
        "Stable tests use few fixed configurations in one process and never repeat calls or inject faults.",
        [S + "hsmm.py", "src/mssm/src/cpp/hsmm"],
        [
            ("split of matrices and responses into series", S + "hsmm.py:_split_matrices"),
            ("one pool task per series", S + "hsmm.py:HSMMFamily.llk, gradient, compute_od_probs, compute_Tpi, decode_viterbi, get_resid"),
        ],
        ["return values of the HSMMFamily methods"],
    ),
    P(
        "C08",
        "Seeded hidden semi-Markov draws depend on seed, model and series only",
        "HSMMFamily.predict, sample_posterior_states and posterior duration residuals, given a seed, return the "
        "same draws for every n_cores and worker schedule, for every earlier call and every state of the global "
        "random number generators, and for each series the draws that series gives on its own with its own "
        "transition matrix. A fault in a worker raises, and repeating the call afterwards gives the same draws.",
        ["schedules", "inputs", "histories", "configurations", "fault_sequences"],
        "all families, data, seeds, process counts, schedules, call histories and faults",
        "Stable tests draw with one seed in one process.",
        [S + "hsmm.py", "src/mssm/src/cpp/hsmm/decode.cpp"],
        [
            ("sampling of one series per pool task", S + "hsmm.py:predict_series, sample_posterior_series, series_resid"),
        ],
        ["return values of the HSMMFamily methods"],
    ),
    P(
        "C09",
        "Posterior samples do not depend on where and when the chains run",
        "sample_mssm, given a seed, returns the same samples (coefficients, scales, family and smoothing "
        "parameters, log-probabilities) whether chains run one after the other or each in a process of its own, "
        "for every schedule of these processes, every history of earlier calls and every state of the global "
        "random number generators, for every family, number of chains, step size and sampler option. Chains differ "
        "from each other, and the callback sees, at increasing iterations, exactly the start of the returned samples; "
        "a sampler that stops on convergence returns the second half of what was sampled. The model is left as it was "
        "and no shared memory outlives the call.",
        ["schedules", "inputs", "histories", "configurations"],
        "all fitted models, sampler settings, seeds, process schedules and histories",
        "The sampler is random and parallel; no stable test runs it.",
        [S + "mcmc.py"],
        [
            ("one process per chain and block of steps", S + "mcmc.py:sample_mssm, advance_chain_mssm"),
            ("chain state handed over through a managed dictionary", S + "mcmc.py:sample_mssm"),
        ],
        ["MCMCResult fields", "callback arguments"],
    ),
    P(
        "C10",
        "A sampler chain that fails is an error, never made-up samples",
        "If a chain process dies or raises at any point, cannot be started, cannot attach or allocate shared memory, "
        "or its manager fails, or if the callback raises or the user interrupts, sample_mssm raises; it never returns "
        "or reports samples other than those of the fault-free run (stale, partial or repeated blocks). What "
        "the callback received before the fault is right, the model is unchanged, no shared memory is left behind, "
        "and repeating the call gives the fault-free samples.",
        ["fault_sequences", "crash_points", "schedules", "configurations"],
        "all fault kinds and positions in a sampling run",
        "Tests never kill a chain.",
        [S + "mcmc.py"],
        [
            ("results of a block collected after joining its processes", S + "mcmc.py:sample_mssm"),
            ("shared memory set up and release", S + "mcmc.py, " + S + "matrix_solvers.py"),
        ],
        ["exceptions and return value of sample_mssm", "callback arguments", "shared memory segments"],
    ),
    P(
        "C11",
        "Corrections for uncertain smoothing parameters do not depend on processes",
        "Given a seed, estimateVp, correct_VB and the corrected degrees of freedom and covariances they yield "
        "(also through compare_CDL) are the same for every number of processes, every worker schedule, every "
        "history of earlier calls and every state of the global random number generators, for every kind of model, "
        "grid type and method. A worker, pool or shared memory that fails makes the call raise, or leaves its result as it is "
        "without the fault. The model is left as it was, no shared memory stays behind, and repeating the call after "
        "a fault gives the fault-free result.",
        ["schedules", "inputs", "histories", "configurations", "fault_sequences"],
        "all fitted models, correction settings, seeds, process counts, schedules, histories and faults",
        "Stable tests never correct for uncertain smoothing parameters.",
        [S + "utils.py", S + "compare.py", S + "matrix_solvers.py"],
        [
            ("candidate REML scores computed in a pool", S + "utils.py:correct_VB, estimateVp, compute_reml_candidate_GAMM, compute_REML_candidate_GSMM"),
            ("sums over candidates shared among processes", S + "utils.py:correct_VB, compute_Vb_corr_WPS"),
        ],
        ["return values of estimateVp, correct_VB, compare_CDL"],
    ),
    P(
        "C12",
        "Numerical Hessians do not depend on the processes that compute their columns",
        "A numerically differentiated Hessian (GSMMFamily.jhessian, also as used while fitting a general model that "
        "supplies no Hessian) is the same for every number of processes and every worker schedule, for every "
        "family, also a user's own with extra coefficients, and for hidden semi-Markov families that use processes "
        "themselves. A failing worker or pool raises, inputs and family are left as they were, and "
        "repeating the call, or the fit on the same model, after a fault gives the fault-free result.",
        ["schedules", "inputs", "configurations", "fault_sequences"],
        "all families, coefficients, model matrices, column subsets, process counts, schedules and faults",
        "Stable tests never compute a Hessian by several processes.",
        [S + "exp_fam.py", S + "hsmm.py", S + "gamm_solvers.py"],
        [
            ("columns of the Hessian as pool tasks", S + "exp_fam.py:GSMMFamily.jhessian"),
            ("no pool inside of a pool worker", S + "hsmm.py:HSMMFamily.jhessian"),
        ],
        ["return value of jhessian", "GSMM.fit results"],
    ),
    P(
        "C13",
        "A model's answers depend on the model and the arguments, not on history",
        "What a fitted model answers (predictions, differences, intervals, samples, p-values, residuals, corrected "
        "quantities, printed summaries, term-wise results) is a function of the model and the arguments alone. "
        "It is the same whatever was asked, fitted, copied, pickled or dropped before, on this model or on another "
        "that shares its data frame, its family object or its term objects, in whatever order, for built-in and "
        "user-supplied families.",
        ["histories", "inputs", "configurations"],
        "all models and pairs of models, all sequences of questions, refits, copies, pickles and deletions",
        "Stable tests ask one model one question each, and never use two models at once.",
        [M, S + "formula.py", S + "exp_fam.py", S + "utils.py", S + "compare.py"],
        [
            ("terms, penalties and code books owned by a formula", S + "formula.py:Formula.__init__, encode_data"),
            ("values kept by a family between calls", S + "exp_fam.py:PropHaz"),
            ("options and arguments of the caller", S + "utils.py:estimateVp, correct_VB, approx_smooth_p_values"),
        ],
        ["return values and printed output of every method and function that takes a fitted model"],
    ),
    P(
        "C14",
        "Asking a fitted model, even if interrupted or refused, changes nothing",
        "A question put to a fitted model leaves the public state of the model, its formulas, family and penalties, "
        "the data frames and the arguments of the caller exactly as they were, whether it is answered, refused, or "
        "cut off at any point by an interrupt (KeyboardInterrupt) or a failed allocation (MemoryError). An interrupt reaches "
        "the caller instead of being swallowed, and asking again gives the uninterrupted answer.",
        ["crash_points", "histories", "inputs"],
        "all models, questions, arguments, and all lines of mssm at which an interrupt or allocation failure arrives",
        "No test interrupts a call, or compares the state of a model before and after a question.",
        [M, S + "utils.py", S + "formula.py", S + "compare.py"],
        [
            ("family parameters set for the duration of a correction", S + "utils.py:compute_REML_candidate_GSMM, correct_VB"),
            ("penalties and lambda of candidates on copies of the model", S + "utils.py:estimateVp"),
            ("error handling around candidate fits", S + "utils.py"),
        ],
        ["public attributes of model, formulas, family, penalties; data frames; arguments"],
    ),
    P(
        "C15",
        "Values that are not finite never end up in a fitted model",
        "When a family's log-likelihood or gradient is not finite (NaN or infinite) at some of the coefficients "
        "tried while fitting a GAMMLSS or GSMM, fitting steps back, so that the fitted model has finite coefficients, "
        "linear predictors, smoothing parameters, edf and log-likelihood at which the family's log-likelihood is "
        "finite, or fitting raises. This holds for one call, a burst of calls, or a whole region "
        "away from the optimum, for all estimation methods and settings.",
        ["fault_sequences", "inputs", "configurations"],
        "all models, estimation methods and settings, all calls and regions at which values are not finite",
        "Stable tests fit well-behaved data only: the step controls are not reached.",
        [S + "gamm_solvers.py", M],
        [
            ("step control of coefficients", S + "gamm_solvers.py:correct_coef_step_gammlss, correct_coef_step_gen_smooth"),
            ("step control of smoothing parameters", S + "gamm_solvers.py:correct_lambda_step_gamlss, correct_lambda_step_gen_smooth"),
            ("line search of the quasi-Newton update", S + "gamm_solvers.py:update_coef_gen_smooth"),
        ],
        ["GAMMLSS/GSMM coef, preds, overall_coef, edf, lambda, get_llk"],
    ),
    P(
        "C16",
        "A fit depends on data, model and settings, not on fits made before it",
        "Fitting again, on the same model or on a new one, with the same data and settings gives the same result and the "
        "same sequence of callbacks, whatever fits came before: with other settings, of another model, failed "
        "in a family function or in a callback, refused, or interrupted at any point. Data frames, "
        "option dictionaries, starting values and penalties given to a fit are never modified, and an interrupt reaches the caller.",
        ["crash_points", "histories", "configurations"],
        "all models, settings, sequences of fits, and all lines and calls at which a fit is cut off",
        "Stable tests fit every model once, to completion, in a fresh process.",
        [M, S + "gamm_solvers.py", S + "exp_fam.py"],
        [
            ("state reset at the start of a fit", M + ":GAMM.fit, GAMMLSS.fit, GSMM.fit"),
            ("options completed on copies", M + ":GSMM.fit"),
            ("estimated penalties kept by the model", S + "gamm_solvers.py:solve_gamm_sparse, solve_gammlss_sparse, solve_generalSmooth_sparse"),
        ],
        ["fit results of GAMM, GAMMLSS, GSMM; callback arguments; option dictionaries"],
    ),
    P(
        "C17",
        "Threads using mssm at the same time do not disturb each other",
        "When several threads each build, fit and question models of their own, also from one shared data frame, or question "
        "one shared fitted model, each thread gets the results it would get alone, for every interleaving "
        "of the threads.",
        ["schedules", "inputs", "configurations"],
        "all models, thread programs, and all interleavings at the lines of mssm",
        "The test suite uses no threads; an interleaving that matters has to be forced.",
        [M, S + "formula.py", S + "gamm_solvers.py", S + "exp_fam.py", S + "utils.py", S + "matrix_solvers.py"],
        [
            ("no mutable module state used during fits", S + "gamm_solvers.py, " + S + "formula.py"),
            ("module-level imports and caches", S + "exp_fam.py, " + S + "compare.py"),
        ],
        ["results of every thread against the results of the thread run alone"],
    ),
]

PURE = (
    "A pure function of its arguments: no schedule, clock, I/O, crash point, randomness or history can change the "
    "outcome, so a simulator has nothing to control. Its interaction with those (same value under every schedule, fault "
    "and history) is claimed by {}."
)

NOT_APPLICABLE = [
    (
        P(
            "N01",
            "Derivatives of built-in families equal those of their log-likelihoods",
            "For every built-in family, the first and second derivatives (and gradient and Hessian) it reports equal the "
            "derivatives of the log-likelihood it reports, at every valid parameter and observation.",
            ["inputs"],
            "all families, parameters and observations",
            "Tests evaluate few points.",
            [S + "exp_fam.py", S + "hsmm.py"],
            [("analytic derivatives", S + "exp_fam.py")],
        ),
        PURE.format("C12, C13 and C15"),
    ),
    (
        P(
            "N02",
            "Link functions are inverted exactly on their whole domain",
            "For every link, fi(f(mu)) equals mu for all valid mu, and dy1 and dy2 are the derivatives of f.",
            ["inputs"],
            "all links and means",
            "Tests evaluate few points.",
            [S + "exp_fam.py"],
            [("links", S + "exp_fam.py:Link subclasses")],
        ),
        PURE.format("C13"),
    ),
    (
        P(
            "N03",
            "Penalty matrices are symmetric positive semi-definite with the stated rank",
            "Every smooth term yields penalties that are symmetric positive semi-definite, of the rank recorded with them, with "
            "D D' equal to S.",
            ["inputs", "configurations"],
            "all terms, bases and penalty kinds",
            "Tests build few terms.",
            [S + "penalties.py", S + "smooths.py", S + "terms.py"],
            [("penalty construction", S + "penalties.py")],
        ),
        PURE.format("C02"),
    ),
    (
        P(
            "N04",
            "Identifiability constraints make smooths sum to zero over the data",
            "A centred smooth has fitted values that sum to zero (or vanish, for difference constraints) over the data its "
            "formula was set up with.",
            ["inputs", "configurations"],
            "all data sets and terms",
            "Tests build few terms.",
            [S + "formula.py", S + "terms.py"],
            [("constraint absorption", S + "formula.py")],
        ),
        PURE.format("C02"),
    ),
    (
        P(
            "N05",
            "Estimated smoothing parameters maximise the restricted likelihood",
            "At convergence the estimated smoothing parameters are a stationary point of the (Laplace approximate) REML criterion.",
            ["inputs", "configurations"],
            "all models and data sets",
            "Tests compare a few fits with stored numbers.",
            [S + "gamm_solvers.py", S + "utils.py"],
            [("generalised Fellner-Schall update", S + "gamm_solvers.py")],
        ),
        "Numerical accuracy of an approximate optimiser (the update itself is approximate, so no exact oracle exists); no "
        "schedule, fault or history is involved. That the result does not depend on them is claimed by C01, C03, C15 and C16.",
    ),
    (
        P(
            "N06",
            "Sparse factorisations and solves of the C++ extension are correct",
            "For every sparse matrix in its domain, a factorisation returned by the extension multiplies back to the (permuted) "
            "matrix, and solves satisfy their systems up to rounding.",
            ["inputs"],
            "all sparse matrices",
            "Tests use few matrices.",
            [S + "matrix_solvers.py", "src/mssm/src/cpp/"],
            [("Cholesky, QR and LU wrappers", "src/mssm/src/cpp/eigen_solvers.cpp")],
        ),
        PURE.format("C05"),
    ),
    (
        P(
            "N07",
            "The most likely state path is a maximiser of the path probability",
            "decode_viterbi returns a sequence of states and durations whose probability no other sequence exceeds, and smoothed state probabilities are "
            "proper distributions at every time point.",
            ["inputs"],
            "all models and series",
            "Tests check few series.",
            [S + "hsmm.py", "src/mssm/src/cpp/"],
            [("decoding", S + "hsmm.py")],
        ),
        PURE.format("C08 and C09"),
    ),
    (
        P(
            "N08",
            "Approximate p-values and intervals have their nominal level",
            "Under the stated models, p-values are close to uniform under the null and intervals cover at their nominal rate.",
            ["inputs"],
            "all models and data sets",
            "Needs large simulation studies.",
            [S + "utils.py", S + "compare.py"],
            [("p-values", S + "utils.py:approx_smooth_p_values")],
        ),
        "A statistical statement about the method, approximate by design: no exact oracle, and no schedule, fault or history is involved.",
    ),
]
