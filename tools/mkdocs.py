"""Regenerates properties.jsonl and MANIFEST.json from one table."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GP = "src/smolgp/gp.py"
KB = "src/smolgp/kernels/base.py"
KI = "src/smolgp/kernels/integrated.py"
KD = "src/smolgp/kernels/dense.py"
HE = "src/smolgp/helpers.py"
SS = ["src/smolgp/solvers/solver.py", "src/smolgp/solvers/kalman.py", "src/smolgp/solvers/rts.py"]
SP = ["src/smolgp/solvers/parallel/solver.py", "src/smolgp/solvers/parallel/kalman.py", "src/smolgp/solvers/parallel/rts.py"]
SI = ["src/smolgp/solvers/integrated/solver.py", "src/smolgp/solvers/integrated/kalman.py", "src/smolgp/solvers/integrated/rts.py"]
SQ = ["src/smolgp/solvers/integrated/parallel/solver.py", "src/smolgp/solvers/integrated/parallel/kalman.py", "src/smolgp/solvers/integrated/parallel/rts.py"]

MODEL = ("every kernel (and sum, product, scaling of kernels) with every parameter value, every set of sorted "
         "coordinates (ties, gaps, offsets, one point), every noise level per datum and every data vector")
EXPO = ("every exposure-integrated kernel, number of instruments, arrangement of exposures (contiguous, overlapping "
        "between instruments, zero-length, any order), noise and data")


def P(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=mech, observe=observe, technique=technique, note=note, state=list(state))


REF = "runtime monitoring: reference-model oracle (dense GP) over generated workloads"
PROPS = [
 P("C01", "Log-likelihood of an instantaneous model is the exact Gaussian log density",
   "For any instantaneous kernel, sorted coordinates, positive diagonal noise and data, the log probability reported by the Gaussian process equals the log density of a zero-mean multivariate normal whose covariance is the kernel's closed form plus the noise, to floating-point accuracy relative to the conditioning of the problem.",
   ["inputs"], MODEL, "Tests evaluate the likelihood of a handful of fixed parameter values on one time grid, with loose tolerances; equality has to hold for every input.",
   [GP, KB] + SS, [("Kalman filter innovations", "src/smolgp/solvers/kalman.py"), ("prediction-error decomposition", "src/smolgp/gp.py _compute_log_prob")],
   ["GaussianProcess.log_probability"], REF, "Exact agreement on every generated instance (over a thousand per run); nothing is said about instances not generated. Trusts the numpy dense oracle."),
 P("C02", "Conditioning yields the exact posterior mean and variance at the data",
   "After conditioning an instantaneous model on data, the mean and variance reported at each data coordinate, in data order, equal those of dense Gaussian-process regression, and the log probability returned with the conditioned process is the exact one.",
   ["inputs"], MODEL, "Tests compare against a dense GP for a few kernels and one data set.",
   [GP, KB] + SS, [("RTS smoother", "src/smolgp/solvers/rts.py"), ("projection to observation space", "src/smolgp/gp.py ConditionedStates.project_at_data")],
   ["GaussianProcess.condition"], REF, "As C01, for the conditioned moments."),
 P("C03", "Predictions at arbitrary test coordinates are the exact posterior",
   "Predicting a conditioned instantaneous model at any test coordinates - before, between, at, or after the data, in any order, any number, repeated or not - returns the exact posterior mean and variance of the latent function there.",
   ["inputs"], MODEL + "; every set of test coordinates", "Tests predict on one sorted grid; retrodiction, ties with data, unsorted and single test points are not covered.",
   [GP, KB] + SS, [("retrodict/interpolate/extrapolate switch", "src/smolgp/solvers/solver.py predict")],
   ["GaussianProcess.predict", "GaussianProcess.condition(y, X_test)"], REF, "As C01, for predictions; test points are unsorted, duplicated, coincident with data and outside of their range."),
 P("C04", "The parallel solver is exact",
   "Choosing the parallel solver for an instantaneous model changes neither the log probability nor the conditioned or predicted means and variances: all equal the exact dense answers for every number of data points.",
   ["inputs", "configurations"], MODEL + "; every data size (the scan tree differs for each)", "Tests run one size and kernel combination; the associative scan's combination tree depends on the size.",
   [GP, KB] + SP, [("associative filtering and smoothing elements", "src/smolgp/solvers/parallel/kalman.py, rts.py")],
   ["GaussianProcess(..., solver=ParallelStateSpaceSolver)"], REF, "As C01-C03 through the parallel solver."),
 P("C05", "Log-likelihood of exposure-integrated data is exact",
   "For exposure-integrated kernels, the log probability of measurements that are averages over their exposures equals the Gaussian log density under the doubly integrated covariance, for any exposure lengths, any number of instruments with mutually overlapping exposures, contiguous or zero-length exposures, and any order of the data.",
   ["inputs"], EXPO, "Tests use one or two instruments, one kernel and a fixed exposure layout.",
   [GP, KI, HE] + SI, [("augmented state with resets at exposure starts", "src/smolgp/solvers/integrated/kalman.py"), ("state ordering", "src/smolgp/solvers/integrated/solver.py")],
   ["GaussianProcess.log_probability with X=(t, texp, instid)"], REF, "Oracle: Gauss-Legendre double integrals of the closed-form kernels, dense Cholesky."),
 P("C06", "Conditioning and prediction with exposure-integrated data are exact",
   "After conditioning on exposure-integrated data, the mean and variance of each exposure average (in the order of the data) and of the instantaneous latent process at any test time, including inside exposures and at their edges, equal the exact dense posterior.",
   ["inputs"], EXPO + "; every set of test times", "Tests predict on one grid with one layout; exposure edges, simultaneous starts and unsorted data are not covered.",
   [GP, KI, HE] + SI, [("smoother across resets", "src/smolgp/solvers/integrated/rts.py"), ("prediction", "src/smolgp/solvers/integrated/solver.py")],
   ["GaussianProcess.condition", "GaussianProcess.predict"], REF, "As C05, for conditioned moments and predictions of the latent process."),
 P("C07", "The parallel integrated solver is exact",
   "Choosing the parallel solver for exposure-integrated data changes neither the log probability nor the conditioned or predicted means and variances: all equal the exact dense answers for every data size and exposure layout.",
   ["inputs", "configurations"], EXPO + "; every data size", "Tests run one size and layout.",
   [GP, KI, HE] + SQ, [("associative elements with resets", "src/smolgp/solvers/integrated/parallel/kalman.py, rts.py")],
   ["GaussianProcess(..., solver=ParallelIntegratedStateSpaceSolver)"], REF, "As C05/C06 through the parallel integrated solver."),
 P("C08", "Kernels evaluate to their documented closed forms",
   "Evaluating any kernel on two coordinate sets gives the documented covariance function of the absolute lag for every ordering and spacing; the resulting matrix is symmetric, stationary, positive semidefinite, and its diagonal equals the value returned for a single coordinate set.",
   ["inputs"], "every kernel, parameter value (including both sides of and close to critical damping) and pair of coordinates in either order, near or far", "Tests compare a few parameter values with tinygp on one grid.",
   [KB, KI], [("state-space evaluation of the covariance", "src/smolgp/kernels/base.py evaluate/evaluate_diag")],
   ["kernel(X1, X2)", "kernel(X)"], "runtime monitoring: closed-form oracle and metamorphic monitors on kernel evaluations", "Exact agreement on every generated pair."),
 P("C09", "State-space matrices of every kernel are mutually consistent",
   "For every kernel and non-negative time step, the transition matrix is the exponential of the design matrix, is the identity for a zero step and composes over steps; the process noise equals both the stationary covariance minus its propagated self and the Van Loan integral, is symmetric positive semidefinite, accumulates over steps; and the stationary covariance solves the Lyapunov equation.",
   ["inputs"], "every kernel and combination, parameter value and time step from zero to many correlation lengths", "Tests check a few step sizes and parameters; the analytic branches (critical, over- and underdamped) and extreme steps are not swept.",
   [KB, HE], [("analytic transition matrices and process noise", "src/smolgp/kernels/base.py"), ("Van Loan integrals", "src/smolgp/helpers.py")],
   ["kernel.transition_matrix/process_noise/design_matrix/stationary_covariance/noise/noise_effect_matrix"], "runtime monitoring: algebraic-identity monitors against an independent high-precision matrix exponential", "Identities are checked in scaled units with an mpmath-free Taylor/scaling exponential written for the check."),
 P("C10", "Kernel algebra: sums, products and scalings behave as covariance algebra",
   "Adding, multiplying and scaling kernels in any nesting and order yields a model whose covariance is the sum, product or multiple of the parts', whose inference is that of this covariance, and which is unaffected by commuting, reassociating or distributing the operations.",
   ["programs", "inputs"], "every expression built with +, *, scalar multiples and sum() over the kernels, any operand order", "Tests use a couple of fixed two- or three-term sums and products.",
   [KB, GP], [("block and Kronecker composition", "src/smolgp/kernels/base.py Sum, Product, Scale")],
   ["kernel expressions", "GaussianProcess results"], "runtime monitoring: random-program generation with covariance-algebra oracle and metamorphic comparison", "Random expression trees; equivalent rewritings must agree and both match the dense answer."),
 P("C11", "Component decomposition is exact and components stay distinguishable",
   "For a multi-component model the posterior mean and variance of every component (and of any subset of components) equal those of dense regression, at the data and at test points, the component means add up to the full mean, and components remain individually addressable by unique names however the kernels were named or reused.",
   ["programs", "inputs"], "every sum of kernels (repeated types, identical objects, user-given and clashing names, products and scaled kernels as components)", "Tests decompose two fixed sums with distinct names.",
   [GP, KB], [("name-selected observation rows", "src/smolgp/kernels/base.py observation_model"), ("unique naming", "src/smolgp/gp.py assign_unique_kernel_names")],
   ["get_component_mean", "get_all_component_means", "predict(kernel=...)", "get_component", "get_all_components"], REF, "Oracle: cross-covariance of each additive component with the data."),
 P("C12", "Integrated state-space matrices are the integrals of the base process",
   "For every integrated kernel, number of instruments and time step, the augmented transition and process-noise matrices are those of the base process joined with its time integral: analytic and numerical forms agree, steps compose (Chapman-Kolmogorov), resets clear exactly one instrument's integral, and observing divides by the exposure.",
   ["inputs"], "every integrated kernel, parameter value, number of instruments and step from zero to hundreds of correlation lengths, in any time unit", "Tests compare a few steps for one kernel.",
   [KI, HE], [("integrated transition and process noise, analytic and Van Loan", "src/smolgp/kernels/integrated.py")],
   ["kernel.transition_matrix/process_noise/reset_matrix/observation_model of integrated kernels"], "runtime monitoring: quadrature oracle plus composition monitors on the matrices", "Oracle integrates independently computed matrix exponentials by Gauss-Legendre panels."),
 P("C13", "Power spectral densities are the Fourier transforms of the covariances",
   "For every kernel with a power spectral density, and sums, products and scalings of them, the density is non-negative, even in frequency and integrates against the cosine to the covariance function at every lag.",
   ["inputs"], "every kernel with a non-degenerate spectrum, parameter value and frequency", "Tests evaluate no or few spectra.",
   [KB], [("spectral density from the state-space matrices", "src/smolgp/kernels/base.py psd")],
   ["kernel.psd"], "runtime monitoring: Fourier-quadrature oracle of the closed-form covariance", "Quadrature accuracy about 1e-7 relative to the peak."),
 P("C14", "The periodic kernel's series approximation stays within its stated error",
   "The state-space form of the exponential-sine-squared kernel differs from the closed form by no more than its reported error bound at every lag, never exceeds the prior variance, converges as the order grows, is periodic, and the automatically chosen order achieves its documented accuracy.",
   ["inputs", "configurations"], "every period, gamma, amplitude, order and lag", "Tests use one parameter set and order.",
   [KB], [("truncated Bessel series", "src/smolgp/kernels/base.py ExpSineSquared")],
   ["ExpSineSquared(...)(X1, X2)", "error_bound"], "runtime monitoring: closed-form oracle with the reported bound as the monitor", "Rounding slack of 1e-12 of the variance is allowed on top of the bound."),
 P("C15", "JAX transformations preserve results: jit, vmap and gradients are consistent",
   "Compiling or batching any likelihood, conditioning or prediction gives the results of running it directly, and the automatic gradient of the log probability with respect to every kernel parameter, the noise and the data equals the true derivative, as do derivatives of predictive means with respect to the data.",
   ["programs", "inputs"], "every model, solver and transformation (jit, vmap over parameters, data or noise, gradients, and their composition)", "Tests do not differentiate or batch.",
   [GP, KB, KI, HE] + SS + SI + SP + SQ, [("traceable pytrees and control flow", "src/smolgp/gp.py, kernels, solvers")],
   ["jax.jit/vmap/grad of GaussianProcess calls"], "runtime monitoring: differential execution (eager/jit/vmap) and finite-difference oracle on the dense likelihood", "Gradients are compared with Richardson-extrapolated central differences of the dense log density."),
 P("C16", "Inference is invariant under the symmetries of the problem",
   "Results are unchanged by shifting or reflecting time, by changing the units of time or data (with the implied change of the log density), by permuting exposure-integrated data or relabelling instruments; a datum with enormous noise is equivalent to no datum, and repeated observations at one time are equivalent to their weighted mean.",
   ["inputs", "histories"], "every model and data set, including ones too long for dense checking", "Tests evaluate single configurations and never relate two runs.",
   [GP, KB, KI] + SS + SI + SP + SQ, [("stationarity, filtering and sorting of states", "src/smolgp/solvers")],
   ["GaussianProcess.log_probability/condition/predict"], "runtime monitoring: metamorphic monitors relating pairs of executions", "Relations are exact; tolerances follow from conditioning."),
 P("C17", "Reported uncertainties are coherent",
   "All reported state covariances are symmetric positive semidefinite, filtering never increases and smoothing never exceeds filtered uncertainty, posterior variances lie between zero and the prior variance and do not depend on the data values, adding data never increases them, and log densities obey the chain rule over any split of the data.",
   ["inputs", "histories"], "every model, data set, time step and split of the data", "Tests compare variances at one configuration only.",
   [GP] + SS + SI + SP + SQ, [("covariance updates of filter and smoother", "src/smolgp/solvers/*")],
   ["gp.states", "GaussianProcess.variance", "predict(return_var=True)"], "runtime monitoring: invariant monitors on every filter/smoother state", "Invariant slack scales with machine precision and state units."),
 P("C18", "The prediction interface is self-consistent",
   "Every route to the same quantity agrees: conditioning then predicting versus predicting with data directly, conditioning at test points, predicting at the data by default, with or without variances, full states projected by hand, components by name or by kernel, custom observation rows; outputs keep one entry per coordinate in the order given, for one point as for many.",
   ["programs", "histories"], "every combination of the prediction options, model, solver and number of points", "Tests use one or two of the routes and never relate them.",
   [GP] + SS + SI + SP + SQ, [("dispatch of prediction options", "src/smolgp/gp.py predict/condition"), ("projection", "src/smolgp/gp.py PredictedStates")],
   ["GaussianProcess.condition/predict", "PredictedStates", "ConditionedStates"], "runtime monitoring: cross-route consistency monitors over random call programs", "Pairs of routes are compared with tight tolerances, values with the dense oracle."),
 P("C19", "Operations are pure: no call history, sharing or threading changes a result",
   "Constructing, conditioning, predicting and decomposing never modify the kernels, arrays or Gaussian processes passed to them; any interleaving of calls on shared kernels and processes, from one thread or many, returns what each call returns alone.",
   ["histories", "schedules"], "every sequence and thread interleaving of public calls on shared objects", "Tests run each call once in a fixed order.",
   [GP, KB, KI] + SS + SI, [("immutable modules and copies", "src/smolgp/gp.py, equinox modules")],
   ["public API call histories"], "runtime monitoring: recorded call histories checked against isolated re-execution; argument snapshots", "Random histories on shared objects and 8-thread stress; results compared with solo execution in a fresh object."),
 P("C20", "Solver choice, and zero-length exposures, do not matter",
   "The automatically selected solver gives exact results for instantaneous, integrated, scaled and mixed models; an instantaneous model run through the integrated solver, or an integrated kernel with zero-length exposures, gives the results of the plain model; an integrated model converges to it as exposures shrink.",
   ["configurations", "inputs"], "every model kind and solver able to run it", "Tests run each kernel with one solver.",
   [GP, KI] + SI + SQ, [("solver selection", "src/smolgp/gp.py __init__"), ("latent observation for zero exposure", "src/smolgp/kernels/integrated.py")],
   ["GaussianProcess(kernel, X, solver=...)"], "runtime monitoring: differential execution across solvers with dense oracle", "Mixed models are exercised with zero-length exposures, where their meaning is unambiguous."),
 P("C21", "Dense reference kernels equal the double integrals they stand for",
   "The dense oscillator kernels offered for validation return the closed-form covariance and its single and double exposure averages for every lag and pair of exposures - separated, touching, partially or fully overlapping, nested, equal, or instantaneous - in either argument order and parameterisation.",
   ["inputs"], "every underdamped oscillator, lag and pair of exposure times", "Tests use them as references rather than testing them.",
   [KD], [("case analysis of overlapping exposures", "src/smolgp/kernels/dense.py")],
   ["smolgp.kernels.dense.SHOKernel", "IntegratedSHOKernel"], "runtime monitoring: quadrature oracle over all overlap configurations", "Underdamped (Q>0.5), exposures at least 1% of the period or zero."),
 P("C22", "Inference stays finite and correct for extreme but valid inputs",
   "For very long gaps, very small or large time and amplitude units, wide dynamic ranges of noise, strongly over- or underdamped oscillators and exposures much longer or shorter than the correlation time, results remain finite and obey the exact limits: distant groups of data factorise, predictions far away return the prior, and noiseless-limit predictions return the data.",
   ["inputs"], "extreme corners of the input domain", "Tests stay near unit scales.",
   [KB, KI, HE] + SS + SI + SP + SQ, [("overflow-free branches for long gaps", "src/smolgp/kernels/base.py, integrated.py")],
   ["GaussianProcess.log_probability/condition/predict"], "runtime monitoring: limit-law and finiteness monitors under hostile inputs", "Limits hold to tolerances set by the construction of each input."),
 P("C23", "Cost is linear in the data, and the parallel solver's depth logarithmic",
   "Likelihood, conditioning and prediction never build any array that grows faster than linearly with the number of data and test points, total work grows linearly, large problems run in bounded memory with exact results, and the parallel solvers contain no data-length sequential loop.",
   ["inputs", "configurations"], "every model and solver, any number of points", "Tests use small data sets and do not measure cost.",
   [GP] + SS + SI + SP + SQ, [("lax.scan and associative_scan", "src/smolgp/solvers")],
   ["traced programs", "peak resident memory", "results at N of 10^4"], "runtime monitoring: monitors on traced programs' array sizes and loop lengths, memory-limited large runs against an O(N) oracle", "Growth is measured between sizes, not absolute cost."),
 P("C24", "Filtered and predicted states are the exact partial-data posteriors",
   "The state estimates exposed after conditioning are, at every step, the exact Gaussian distribution of the state given only the data up to (filtered) or strictly before (predicted) that step, and given all data (smoothed), including the hidden derivatives and integrals.",
   ["histories", "inputs"], MODEL + "; every step of the recursion", "Tests look at projected smoothed quantities only.",
   [GP] + SS + SI + SP + SQ, [("filter recursion", "src/smolgp/solvers/kalman.py"), ("exposed states", "src/smolgp/gp.py ConditionedStates")],
   ["ConditionedStates.predicted_*/filtered_*/smoothed_*"], "runtime monitoring: per-step online monitor of filter states against dense sub-data posteriors", "The projected state of every step is compared; hidden components through their cross-covariances for Matern and oscillator kernels."),
]


def main():
    have = {p["id"] for p in PROPS if os.path.exists(f"{ROOT}/vlib/checks/{p['id'].lower()}.py")}
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
           "notes": "All checks import smolgp from /repo/src (pure Python; nothing to build). No hooks are needed: the monitors observe public results and public state objects."}
    for p in PROPS:
        if p["id"] in have:
            man["checks"].append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} --tier quick",
                                  "thorough_cmd": f"bash run.sh {p['id']} --tier thorough",
                                  "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": "not claimed yet: its monitor is still being built"})
    json.dump(man, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
    print(len(man["checks"]), "checks", len(man["not_applicable"]), "n/a")


main()
