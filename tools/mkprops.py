"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe_at, hook=None, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": list(state),
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe_at, "hook_needed": hook}})

BOOT = "estimation/utilities/bootstrap_errors.py"
POLY = "common/polychoric.py"
MDM = "estimation/multidimensional/multidimensional_mml_methods.py"
MDI = "estimation/multidimensional/multidimensional_initial_guess.py"
MDA = "estimation/multidimensional/multidimensional_ability_methods.py"
LAT = "estimation/utilities/latent_ability_distribution.py"
D = "estimation/unidimensional/dichotomous/"
PO = "estimation/unidimensional/polytomous/"
DICH = [D + f for f in ("rasch_mml.py", "rasch_conditional.py", "threepl_mml.py", "twopl_mml.py",
                        "twopl_mml_eap.py", "jml_methods.py", "partial_integrals.py")]
POLYF = [PO + f for f in ("grm_mml.py", "grm_mml_eap.py", "pcm_mml.py", "gum_mml.py", "grm_jml.py",
                          "pcm_jml.py", "partial_integrals_poly.py")]
UT = ["estimation/utilities/" + f for f in ("utils.py", "polytomous_utils.py", "look_up_table.py",
                                            "girth_options.py", "latent_ability_distribution.py")]
ABIL = [D + "ability_estimation.py", D + "ability_threepl.py", PO + "ability_estimation_poly.py", MDA]
FA = ["factoranalysis/" + f for f in ("pca.py", "paf.py", "minimum_rank.py", "maximum_likelihood.py", "rotation.py")]
COM = ["common/" + f for f in ("cronbach_alpha.py", "entropy.py", "hypersphere.py", "polychoric.py",
                               "polyserial.py", "procrustes.py", "reverse.py")]
SYN = ["synthetic/dichotomous.py", "synthetic/polytomous.py"]

p("C01", "Seeded bootstrap results are independent of worker scheduling",
  "For a given dataset, model, options, number of iterations, number of processors and integer seed, "
  "standard_errors_bootstrap returns identical numbers on every run. The order in which workers start, run, stall "
  "and finish, other bootstraps or random-number users active in the same program, operating-system entropy and the "
  "state of numpy's global generator have no influence on them.",
  ["schedules", "configurations"],
  "every interleaving of worker start, execution and completion, every worker count, every entropy and global-RNG state",
  "The tests run one seedless smoke bootstrap with whatever schedule the OS produces and never compare two runs.",
  [BOOT], [("per-worker generators spawned from one SeedSequence", BOOT + ":standard_errors_bootstrap"),
           ("ordered collection of the workers' results", BOOT + ":standard_errors_bootstrap")],
  ["return value of standard_errors_bootstrap"])
p("C02", "Bootstrap summaries count every requested resample exactly once",
  "standard_errors_bootstrap fits the model on exactly bootstrap_iterations resamples, each made of as many whole "
  "respondent columns as the dataset has, drawn with replacement, and each fitted with the caller's options; the "
  "un-resampled dataset is fitted only to obtain the solution when none is supplied. The standard errors (ddof=1), "
  "the 2.5/97.5 percentiles and the bias (resample mean minus solution) are those of exactly these fits, however the "
  "iterations are split over workers, including more workers than iterations.",
  ["schedules", "configurations"],
  "every split of iterations over workers, every schedule of the workers, every stream of draws",
  "The tests only check that keys exist and the interval is ordered; lost, repeated or misattributed resamples are invisible to them.",
  [BOOT], [("chunking of iterations over workers", BOOT + ":standard_errors_bootstrap"),
           ("column resampling", BOOT + ":_bootstrap_func")],
  ["the datasets and options the caller-supplied irt_model is called with", "return value"])
p("C03", "Bootstrap resamples are independent across iterations, workers and calls",
  "No two resamples of a bootstrap repeat each other because workers or iterations share a random stream, different "
  "seeds give different resamples, and calls without a seed take fresh entropy each time. Over many seeds every "
  "respondent is drawn with equal probability.",
  ["schedules", "configurations", "inputs"],
  "every seed, entropy value, worker count, start method semantics and worker schedule",
  "The tests never look at the draws; a stream shared by all workers yields a plausible but far too narrow confidence interval.",
  [BOOT], [("SeedSequence.spawn per worker", BOOT + ":standard_errors_bootstrap")],
  ["the datasets the caller-supplied irt_model is called with"])
p("C04", "Bootstrap never absorbs a worker failure and never hangs on one",
  "If any worker of standard_errors_bootstrap cannot be started, is killed, raises, or returns a result that cannot be "
  "transferred, the call ends in bounded time by raising, unless it still returns exactly the summary a failure-free "
  "run gives; it never summarises a subset of the resamples and never waits forever. An interrupt while waiting for "
  "workers also ends the call by raising, and a bootstrap run afterwards is unaffected.",
  ["fault_sequences", "crash_points", "schedules"],
  "every worker, every instant of a worker's life, every kind of worker failure",
  "No test makes a worker fail.",
  [BOOT], [("worker pool and its result collection", BOOT + ":standard_errors_bootstrap")],
  ["outcome of standard_errors_bootstrap"])
p("C05", "Parallel polychoric correlation equals the serial one",
  "polychoric_correlation with any number of processors returns exactly the matrix polychoric_correlation_serial "
  "returns for the same data (symmetric, unit diagonal, each pair in its own cell), for any number of items, integer "
  "type, memory layout and processor count. Worker order, worker delays, start method and simultaneous calls from "
  "other threads of the program make no difference.",
  ["schedules", "configurations", "inputs"],
  "every worker schedule, worker count from 1 to more than the number of pairs, shared-memory size and content, concurrent callers",
  "The tests compare one matrix with two workers under whatever schedule occurs.",
  [POLY], [("pair chunking and chunk-to-cell mapping", POLY + ":polychoric_correlation"),
           ("shared-memory copy of the data made before workers read it", POLY + ":polychoric_correlation")],
  ["return value of polychoric_correlation"])
p("C06", "Parallel polychoric correlation never returns a partial matrix",
  "If a worker of polychoric_correlation dies, raises, cannot be started or cannot attach the shared data, or if the "
  "shared memory cannot be allocated, or the caller is interrupted while waiting, the call raises in bounded time; "
  "whenever it does return, the matrix is complete and exactly the failure-free one. A later call is unaffected.",
  ["fault_sequences", "crash_points", "schedules"],
  "every worker, every instant, every failure of process start, shared-memory creation or attachment",
  "No test makes a worker or an allocation fail.",
  [POLY, MDI], [("futures re-raise worker errors when results are read", POLY + ":polychoric_correlation")],
  ["outcome of polychoric_correlation"])
p("C07", "Parallel calls release workers and shared memory on every path",
  "After polychoric_correlation, standard_errors_bootstrap or a multidimensional estimation with several processors "
  "has returned or raised, no shared-memory segment created by it still exists and no worker started by it keeps "
  "running (a worker of an interrupted call at most finishes the work already handed to it, then ends). This holds on "
  "success, on worker errors and crashes, on failed allocations or process starts, and when the caller is interrupted "
  "while waiting for workers.",
  ["fault_sequences", "schedules", "histories"],
  "every fault point and kind, every schedule, repeated calls",
  "Leaks are invisible to return-value assertions and the failure paths are never run.",
  [POLY, BOOT, MDI], [("shared-memory manager and executor context managers", POLY + ":polychoric_correlation"),
                      ("pool context manager", BOOT + ":standard_errors_bootstrap")],
  ["live worker processes", "named shared-memory segments"])
p("C08", "Multidimensional estimation does not depend on the processor count",
  "initial_guess_md, multidimensional_twopl_mml and multidimensional_grm_mml return identical numbers whatever "
  "num_processors is and however the workers are scheduled. If a worker fails during the parallel phase they raise "
  "instead of returning estimates.",
  ["schedules", "configurations", "fault_sequences"],
  "every num_processors, worker schedule and worker failure during the correlation phase",
  "The tests use a single processor for these estimators.",
  [MDM, MDI, POLY], [("num_processors option handed to the polychoric step", MDI + ":initial_guess_md")],
  ["return values"])

TH = "The tests call one function at a time from one thread."
THQ = "every interleaving of two or three caller threads, preempted at any line or call inside the library"
p("C09", "Dichotomous item estimation is safe from concurrent caller threads",
  "When several threads of one program run the dichotomous item-parameter estimators (rasch, 1PL, 2PL, 3PL: joint, "
  "conditional, marginal and mixed-EAP) at the same time, each call returns exactly what it returns when run alone "
  "in a fresh process, even if the threads share the same dataset array and options dictionary. No interleaving "
  "changes the caller's arrays or options.",
  ["schedules"], THQ, TH, DICH + UT,
  [("all working arrays are local to a call; look-up tables are per-call closures", D)], ["return values", "argument arrays after the calls"])
p("C10", "Polytomous item estimation is safe from concurrent caller threads",
  "When several threads run the polytomous estimators (graded response, partial credit, graded unfolding: marginal, "
  "mixed-EAP and joint), with or without estimation of the latent distribution, each call returns exactly what it "
  "returns when run alone in a fresh process, even if the threads share the same dataset array and options "
  "dictionary. No interleaving changes the caller's arrays or options.",
  ["schedules"], THQ, TH, POLYF + UT, [("all working arrays and the latent-density object are local to a call", PO)],
  ["return values", "argument arrays after the calls"])
p("C11", "Ability and multidimensional estimation is safe from concurrent threads",
  "When several threads run the ability estimators (MLE, MAP, EAP; two- and three-parameter and multidimensional) or "
  "the multidimensional item estimators, each call returns exactly what it returns when run alone in a fresh process, "
  "even if the threads share the same arrays and options. No interleaving changes the caller's arrays or options.",
  ["schedules"], THQ, TH, ABIL + [MDM, MDI, "estimation/multidimensional/partial_integral_md.py"] + UT,
  [("all working arrays are local to a call", MDA)], ["return values", "argument arrays after the calls"])
p("C12", "Factor analysis and common statistics are safe from concurrent threads",
  "When several threads run the factor-analysis extractions, rotation, correlations, classical test statistics, data "
  "conditioning helpers and other common statistics, each call returns exactly what it returns when run alone in a "
  "fresh process, even if the threads share the same arrays. No interleaving changes the caller's arrays.",
  ["schedules"], THQ, TH, FA + COM + ["estimation/utilities/ctt_statistics.py"] + UT,
  [("all working arrays are local to a call", "common/, factoranalysis/")], ["return values", "argument arrays after the calls"])
p("C13", "Seeded random functions reproduce whatever else draws random numbers",
  "Given an integer seed, synthetic data generation, loading rotation and single-processor bootstrap return identical "
  "results regardless of concurrent threads using the same functions or numpy's global generator, of the global "
  "generator's state, and of operating-system entropy. They neither read nor advance the global generator.",
  ["schedules", "histories"], "every interleaving with other random-number users, every global RNG state and entropy value",
  "The tests check reproducibility only for two back-to-back calls.",
  SYN + ["factoranalysis/rotation.py", BOOT], [("local generators built from the seed", "synthetic/, factoranalysis/rotation.py")],
  ["return values", "numpy global generator state"])

FQ = ("every instant inside the library (line or call) and every kind of failure: KeyboardInterrupt, MemoryError, a linear-algebra "
      "failure, an error raised by the caller's latent density, an optimiser error")
FW = "No test interrupts a call or makes a callee fail."
FS = (" ends by raising, or returns exactly the undisturbed result, and an interrupt always raises. It leaves the "
      "caller's arrays and options and the process-wide state (numpy error handling and print options, warning "
      "filters, random state, environment) as they were, and later calls return what they return in a fresh process.")
p("C14", "Failed or interrupted unidimensional item estimation leaves no trace",
  "A unidimensional item-parameter estimation that is interrupted or hit by a failure (allocation, linear algebra, "
  "optimiser, the caller's latent density) at any point" + FS,
  ["fault_sequences", "crash_points"], FQ, FW, DICH + POLYF + UT,
  [("inputs copied before in-place work; no process-wide state is touched", D + ", " + PO)],
  ["outcome", "argument arrays", "process-wide state", "later calls"])
p("C15", "Failed or interrupted ability or multidimensional runs leave no trace",
  "An ability estimation or a multidimensional estimation that is interrupted or hit by a failure (allocation, linear "
  "algebra, optimiser, the caller's latent density) at any point" + FS,
  ["fault_sequences", "crash_points"], FQ, FW, ABIL + [MDM, MDI] + UT,
  [("inputs copied before in-place work; no process-wide state is touched", MDA)],
  ["outcome", "argument arrays", "process-wide state", "later calls"])
p("C16", "Failed or interrupted statistics, factoring or synthesis leave no trace",
  "A factor analysis, rotation, correlation, classical or common statistic, conditioning helper or synthetic data "
  "generation that is interrupted or hit by a failure (allocation, linear algebra, optimiser) at any point" + FS,
  ["fault_sequences", "crash_points"], FQ, FW, FA + COM + SYN + ["estimation/utilities/ctt_statistics.py"],
  [("inputs copied before in-place work; no process-wide state is touched", "common/, factoranalysis/, synthetic/")],
  ["outcome", "argument arrays", "process-wide state", "later calls"])
p("C17", "Results do not depend on what the process computed before",
  "Any public function returns, at any point of any history of earlier calls in the same process (other functions, "
  "the same function with slightly different data or options, calls that failed or were interrupted), exactly what it "
  "returns as the first call of a fresh process. Changing any single argument or option that the function uses is "
  "always reflected in the result.",
  ["histories", "fault_sequences"], "every sequence of public calls, including near-identical and failing ones",
  "Tests run a fixed short order of calls with unrelated arguments, so a stale memo or leftover state is never hit.",
  DICH + POLYF + ABIL + UT + FA + COM + [MDM, MDI, BOOT], [("no module-level mutable state", "whole package")], ["return values"])
p("C18", "Results belong to the caller and never alias library state",
  "A value returned by a public function never changes because of later calls, and a caller that overwrites arrays or "
  "entries of a returned result, or its own input arrays and options after the call, never affects any later call's "
  "result or an earlier returned result (functions documented to hand back a caller-supplied value excepted).",
  ["histories"], "every sequence of calls interleaved with in-place modification of returned values and of inputs",
  "Tests never modify results nor keep them across later calls.",
  DICH + POLYF + ABIL + UT + FA + COM + SYN + [MDM, MDI], [("fresh output arrays and dictionaries per call", "whole package")],
  ["returned values across calls"])
p("C19", "Latent-density estimation steps are all-or-nothing and identified",
  "A latent-density estimation step that fails or is interrupted leaves the estimated density exactly as the last "
  "successful step left it or, if it failed after its result was in place, exactly as the whole step leaves it, never "
  "in between; a successful one has non-negative coefficients that sum to one with mean zero and the "
  "prescribed variance. On the first iteration, or when estimation is off, the weights are always the supplied "
  "density times the quadrature weights, whatever steps came before. Resampling an estimated density at another "
  "number of points gives a new density with the same guarantees, shared with nothing, and leaves the old one, "
  "and densities resampled before, as they were, also when it fails or is interrupted.",
  ["histories", "fault_sequences", "crash_points"], "every sequence of estimation steps, resamplings, failures and interruptions on one or several latent-density objects",
  "Tests run single successful estimations.",
  [LAT], [("coefficients are worked on in a local copy and published at the end", LAT + ":optimize_distribution")],
  ["LatentPDF return values", "LatentPDF.cubic_splines[-1] evaluated"])
p("C20", "Synthetic dichotomous data follow the model for every random stream",
  "For every stream of random words, including extreme ones, create_synthetic_irt_dichotomous returns an "
  "items x persons integer array of zeros and ones, and over random streams the probability of a one is "
  "guessing + (1 - guessing) * logistic(discrimination * (theta - difficulty)), or the intercept form for "
  "multidimensional discrimination, independently across cells.",
  ["inputs", "schedules"], "every random stream delivered by the generator, every parameter set",
  "Tests use a handful of seeds with exact arrays or loose means.",
  [SYN[0]], [("one uniform draw compared with the response probability per cell", SYN[0])], ["returned array"])
p("C21", "Synthetic polytomous data follow the model for every random stream",
  "For every stream of random words, including extreme ones, create_synthetic_irt_polytomous returns integers from 1 "
  "to the number of levels of the model, and over random streams each person answers each level with the probability "
  "of the selected model (graded, multidimensional graded, partial credit, graded unfolding), independently across cells.",
  ["inputs", "schedules"], "every random stream delivered by the generator, every parameter set and model",
  "Tests use a handful of seeds; a level that is off for rare draws passes them.",
  [SYN[1]], [("cumulative model probabilities compared with one uniform draw per cell", SYN[1])], ["returned array"])
p("C22", "Loading rotation is a valid change of basis for every random restart",
  "For every random start and restart history, sparsify_loadings returns bases of unit length and rotated loadings "
  "whose product is the input loadings, mutually perpendicular bases when orthogonal is requested, and a criterion "
  "value no worse than at the supplied initial guess, up to the tolerance of the local optimiser.",
  ["inputs", "fault_sequences"], "every random stream driving the start and the restarts",
  "Tests use three seeds.",
  [FA[4]], [("angles to unit vectors; inverse of the same bases applied", FA[4])], ["return values"])

EVERY = DICH + POLYF + ABIL + UT + FA + COM + SYN + [MDM, MDI, BOOT]
p("C23", "Calls made inside other calls are exact",
  "When a public function is called again in a thread before an earlier call of that thread has finished (from the "
  "caller's latent density, a signal handler or a finaliser), the outer and the inner call each return exactly what "
  "they return alone in a fresh process, even if they share datasets and options. Inputs and process-wide state stay "
  "as they were, and later calls are exact.",
  ["schedules", "histories"], "every outer and inner call and every instant of the outer one, inner calls nested again",
  "No test calls the library from a callback or a signal handler; thread-safety devices such as locks and "
  "thread-local buffers do not protect against re-entry.",
  EVERY, [("all working arrays are local to a call; the density is called from within estimation", "whole package")],
  ["return values", "argument arrays", "process-wide state"])
p("C24", "Calls in the caller's own worker processes are exact",
  "Public functions called in processes that the caller starts itself (multiprocessing.Process, Pool or "
  "ProcessPoolExecutor; forked or spawned), whenever these are started, also while another thread of the parent is in "
  "the middle of a call, return exactly what they return alone in a fresh process; they do not hang on anything "
  "inherited from the parent, and calls in the parent are unaffected.",
  ["schedules", "configurations"], "every instant of starting a process, every start method, every schedule of parent and children",
  "The tests never call the library from a child process.",
  EVERY, [("no locks, pools or caches at module level that a fork could inherit half-used", "whole package")],
  ["return values in parent and children"])
p("C25", "Unseeded random functions take fresh entropy in every call",
  "Without a seed, every call of create_synthetic_irt_dichotomous, create_synthetic_irt_polytomous and "
  "standard_errors_bootstrap draws from fresh operating-system entropy, and sparsify_loadings without a seed starts "
  "from fresh angles: the draws of calls made one after another, in "
  "different threads, or in forked or spawned processes are unrelated, whatever the clock reads and however numpy's "
  "and random's global generators are seeded. Without a source of entropy a call raises rather than repeats itself.",
  ["schedules", "configurations", "fault_sequences"],
  "every sequence of calls over threads and processes, clock readings and granularities, global generator states, failing entropy",
  "Tests always pass seeds, or look at one unseeded call.",
  SYN + [BOOT], [("default_rng(None) per call", SYN[0]), ("SeedSequence(None) per call", BOOT)],
  ["returned arrays", "the datasets the caller-supplied irt_model is called with"])
p("C26", "Repeated calls do not accumulate memory or other resources",
  "However often public functions are called, with equal or with different arguments, succeeding, failing or "
  "interrupted, serial or with worker processes, the process does not grow: memory allocated by the library, objects "
  "held by its modules, the caller's arrays kept alive, threads, processes, shared memory, open files, exit handlers, "
  "finalisers and warning filters stop increasing after the first calls.",
  ["histories", "fault_sequences"], "every repeated sequence of calls and faults",
  "Every test makes a few calls in a short-lived process.",
  EVERY + [POLY], [("no module-level containers; pools and shared memory in context managers", "whole package")],
  ["memory per allocating line", "process resources"])

p("C27", "Hostile inputs and persistent failures: bounded work and no trace",
  "Whatever a caller passes (densities or models that return nan, infinite, zero, negative, huge, varying or wrongly "
  "shaped values or fail; data that are constant, missing, empty, non-finite or of another type or shape) and even if "
  "linear algebra or optimisation fails at every attempt, every public call ends within bounded work by returning or "
  "raising an ordinary error; equal calls end alike; arguments and process-wide state stay as they were and later "
  "calls are exact.",
  ["inputs", "fault_sequences", "histories"], "every hostile argument, every persistent failure from any point on",
  "The tests use well-behaved data and densities and never let a library call fail repeatedly.",
  EVERY, [("bounded iteration counts in every estimation loop; no retries; no state outside a call", "whole package")],
  ["termination", "argument arrays", "process-wide state", "later return values"])
p("C28", "Results do not depend on the environment and calls touch nothing outside it",
  "Results are the same whatever the clock reads, however fast, coarse or unsteady it is, and for every number of "
  "CPUs, process id, environment variable, working directory, print option, timing of garbage collection, memory "
  "layout, standard stream, program argument, stack depth, read-only input, interpreter flag and hash seed. A call "
  "prints nothing, writes and reads no files, starts nothing but its documented worker processes and connects to nothing.",
  ["configurations", "schedules", "histories"], "every environment, call and history of calls",
  "The tests run in one environment with one clock, one set of flags and one hash seed.",
  EVERY, [("no use of time, os or platform in the estimators; num_processors is explicit", "whole package")],
  ["return values", "standard streams", "audit events"])

NAW = "The tests sample a few inputs."
p("C30", "Item estimates maximise the stated likelihood",
  "Every item estimator returns parameters inside the documented bounds at which its own (joint, conditional or "
  "marginal) likelihood cannot be noticeably improved by changing one item's parameters.",
  ["inputs"], "every dataset and option set", NAW, DICH + POLYF, [("bounded optimisers per item", D)], ["return values"])
p("C31", "Missing responses never contribute",
  "Responses tagged as missing contribute nothing to item estimates, abilities and statistics: their placement only "
  "matters by removing information.",
  ["inputs"], "every missingness pattern", NAW, DICH + POLYF + ABIL, [("invalid response masks", UT[0])], ["return values"])
p("C32", "Ability estimates are what they are named",
  "EAP abilities are posterior means, MAP abilities posterior modes and MLE abilities likelihood modes (with the "
  "documented value for constant response sets) for the given item parameters and latent density.",
  ["inputs"], "every response matrix and parameter set", NAW, ABIL, [("quadrature / bounded search", ABIL[0])], ["return values"])
p("C33", "Model-fit metrics agree with the reported model",
  "AIC, BIC and log-likelihood values equal those computed from the returned parameters and latent density, and the "
  "reported delta is null minus final.",
  ["inputs"], "every dataset and option set", NAW, [LAT] + POLYF[:4] + [MDM], [("compute_metrics", LAT)], ["return values"])
p("C34", "Factor extractions decompose the input matrix",
  "Principal component, principal axis, minimum rank and maximum likelihood factoring return loadings, eigenvalues and "
  "unique variances that are mutually consistent and reproduce the input matrix as well as the method promises.",
  ["inputs"], "every positive definite correlation matrix and factor count", NAW, FA, [("eigendecomposition", FA[0])], ["return values"])
p("C35", "Response recoding and counting preserve the data",
  "Tagging, trimming, counting, reverse scoring and recoding of responses preserve every valid response's identity and "
  "order of categories and never invent one.",
  ["inputs"], "every response matrix", NAW, UT[:2] + [COM[6]], [("condition_polytomous_response", UT[1])], ["return values"])
p("C36", "Options are validated completely",
  "Every documented option is accepted in its documented range and rejected outside it, unspecified options take the "
  "defaults, and unknown keys are rejected.",
  ["inputs", "configurations"], "every options dictionary", NAW, [UT[3]], [("validate_estimation_options", UT[3])], ["return values"])
p("C37", "Common statistics match their definitions",
  "Cronbach's alpha, entropy, polyserial and polychoric correlation values, classical test statistics, procrustes "
  "rotation and hyperspherical coordinates equal their textbook definitions.",
  ["inputs"], "every input", NAW, COM, [("closed forms and one-dimensional likelihoods", "common/")], ["return values"])
p("C38", "Estimates are equivariant under reordering of items and respondents",
  "Permuting respondents leaves item estimates unchanged and permutes abilities; permuting items permutes item "
  "estimates.",
  ["inputs"], "every dataset and permutation", NAW, DICH + POLYF + ABIL, [("per-item and per-person loops", D)], ["return values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
