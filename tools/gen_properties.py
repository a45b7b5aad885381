"""Writes properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

V="pyvbmc/vbmc/vbmc.py"
prop("P01","The evaluation log is a faithful, lossless record of the target",
 "After any sequence of target evaluations, pre-computed values being added, repeated measurements, rejected (non-finite, non-scalar, complex, failing) values and growth of the storage, the log holds exactly the accepted observations: each point in original and transformed coordinates, its value (repeated measurements combined by inverse-variance or plain averaging), its noise, its multiplicity, the transformed value with the log-volume correction, the counts of calls and additions, and the running maximum. A rejected value leaves the log unchanged and raises an error. Finalising trims the storage without altering any entry.",
 ["histories","inputs","configurations"],
 "every sequence of call/add/repeat/reject/finalise operations, every noise level, storage size and bounded/unbounded/warped parameterisation",
 "The unit tests call the logger a handful of times with fixed points; interleavings of repeats, expansions, rejected values and noise levels are not enumerated.",
 ["pyvbmc/function_logger/function_logger.py"],
 [("record / duplicate merge / expand","FunctionLogger._record, FunctionLogger._expand_arrays"),("evaluate","FunctionLogger.__call__"),("add","FunctionLogger.add"),("finalize","FunctionLogger.finalize")],
 ["arrays and counters of the logger after every operation","return values and exceptions"],
 [("X_orig, X, y_orig, y, S, n_evals, X_flag, Xn, func_count, cache_count, y_max","the log","FunctionLogger")])

prop("P02","Evaluation and iteration budgets are honoured",
 "A run never starts a further iteration once the number of target evaluations has reached the configured maximum or the number of iterations has reached its maximum (unless the configured minimum number of evaluations or iterations is not met yet), and it never stops before the minima are met. Every iteration requests exactly the configured number of new points (the initial design size in the first, the per-iteration number afterwards), except iterations that deliberately skip sampling, and only actual target calls count against the budget. The termination message names the condition that ended the run and the reported counts are those of the log.",
 ["histories","configurations"],
 "every history of per-iteration outcomes and every combination of budget options",
 "Tests run a few fixed configurations to the end; the interaction of budgets with skipped sampling, provided values, minima and stability is not enumerated.",
 [V,"pyvbmc/vbmc/active_sample.py"],
 [("loop guard","VBMC.optimize"),("budget tests","VBMC._check_termination_conditions"),("sampling request","VBMC.optimize (new_funevals)")],
 ["calls made to the target","iteration history","results dictionary"])

prop("P03","The target is only ever evaluated inside the hard bounds",
 "Whatever the bounds (finite, infinite, very narrow or very wide), dimension, transform, warping and acquisition settings, every point at which the user's function is called lies strictly inside the hard bounds and is finite, including the initial design and actively chosen points. Active candidates outside the slightly shrunk bounds are never selected while an admissible candidate exists. Integer-constrained coordinates of actively chosen points are integers.",
 ["inputs","configurations","histories"],
 "every bound geometry, candidate set and search result",
 "Tests look at a few bound configurations and never monitor the points of whole runs or adversarial candidate sets.",
 ["pyvbmc/vbmc/active_sample.py","pyvbmc/acquisition_functions/abstract_acq_fcn.py","pyvbmc/parameter_transformer/parameter_transformer.py"],
 [("clamping inverse","ParameterTransformer.inverse"),("hard-bound check","AbstractAcqFcn.__call__"),("search box","active_sample, _get_search_points")],
 ["every argument passed to the user's target"])

prop("P04","Bounds and starting points are validated and normalised at setup",
 "Construction accepts a problem exactly when its starting points and bounds are mutually consistent (finite starting points strictly inside hard bounds; ordered, non-degenerate, non-complex bounds; plausible bounds strictly ordered and inside hard bounds; no half-bounded or fixed variables) and raises an error otherwise. On acceptance, missing bounds get their documented defaults, plausible bounds too close to hard bounds are moved inside by the documented margin, the starting point is kept or moved inside as documented, and the result always satisfies hard lower < plausible lower < plausible upper < hard upper with starting points strictly within.",
 ["inputs","configurations"],
 "every ordering, coincidence, omission and infinity pattern of the bounds, per coordinate, one or several starting points",
 "Tests list about twenty hand-picked cases in fixed dimension; combinations across coordinates and orderings are not enumerated.",
 [V],[("bounds check","VBMC._bounds_check"),("constructor defaults","VBMC.__init__")],
 ["attributes lower_bounds, upper_bounds, plausible_*_bounds, x0 after construction","exceptions"])

prop("P05","Stability and termination follow the documented reliability criterion",
 "An iteration is declared stable exactly when the reliability index is below one, the evidence-bound slope is below tolerance and enough of the recent iterations (all but the tolerated fraction) were reliable; the index averages the change of the bound, its uncertainty and the posterior shift, each in units of its tolerance, and is infinite in the first two iterations. A stable verdict ends the run unless the deterministic entropy must first be switched off, a successful reparameterisation is too recent, or the configured minima are unmet. The verdicts recorded per iteration are those the decisions were based on.",
 ["histories","configurations"],
 "every history of bound values, uncertainties, shifts, counts and warps; every tolerance configuration",
 "Tests exercise the checker with a few hand-made histories; window boundaries, excepted fractions and their interaction with entropy switching and warping are not enumerated.",
 [V],[("termination","VBMC._check_termination_conditions"),("reliability","VBMC._compute_reliability_index")],
 ["iteration history fields r_index, elcbo_impro, stable","is_finished, termination message"])

prop("P06","Warm-up ends once, and trimming never discards too much data",
 "Warm-up ends or data is trimmed only when the documented no-improvement criteria hold and at least ten points were added since the last trim; the first unreliable ending is treated as a false alarm that trims and continues, a reliable one or a second one ends warm-up, and warm-up never restarts. Trimming keeps exactly the previously kept points whose value is within the threshold of the best, and always at least the D+1 best ones; it never re-admits a point trimmed earlier. The next iteration skips sampling as configured and fully refits, and the surrogate is updated to the trimmed data.",
 ["histories","configurations"],
 "every history of iteration outcomes and logged values",
 "Tests check the methods on one or two fabricated states, never sequences with false alarms, ties, few points or earlier trims.",
 [V],[("criteria","VBMC._check_warmup_end_conditions"),("trimming","VBMC._setup_vbmc_after_warmup"),("loop","VBMC.optimize")],
 ["active-point flags of the log","warm-up flags, trim events, logged actions per iteration"])

prop("P07","The returned solution is the best one by the stated rule",
 "The selected iteration is the last one considered if it is stable; otherwise it maximises the bound minus the safety multiple of its uncertainty over the iterations since the last stable one, or over the configured final fraction if none was stable, and with the ranking rule it minimises the sum of recency, bound, reliability and stability ranks. The returned posterior, bound and uncertainty are those recorded for that very iteration and the stability flag on it is the one recorded then.",
 ["histories","inputs"],
 "every history of bounds, uncertainties, reliability and stability flags and every limit index",
 "Tests use a few fixed arrays with the optimum at chosen places.",
 [V],[("selection","VBMC.determine_best_vp")],["return value of the selection","result of the run"])

prop("P08","The final result is consistent with the run that produced it",
 "The returned posterior is an independent copy of the solution object's own; the result summary reports the selected iteration, its reliability, training-set size and convergence status, the kind of problem (bounded or not), the log's evaluation count, and the bound, uncertainty and component count of the returned posterior. The final refinement, when enabled and needed, starts from the selected iteration's posterior and surrogate, asks for at least the minimum number of components, never prunes, leaves the recorded history untouched and preserves the stability verdict, so that success is reported exactly when the selected solution was stable. A run completes whatever kind of input is configured (values provided, noise of any kind).",
 ["histories","configurations"],
 "every run outcome and final-refinement configuration",
 "Tests compare a few fields of one run.",
 [V],[("result","VBMC._create_result_dict"),("refinement","VBMC.final_boost"),("end of run","VBMC.optimize")],
 ["return value of a run","arguments of the final refit","history before/after"])

prop("P09","The iteration history is a complete and isolated record",
 "For every iteration and key the history returns exactly the value recorded last for it, whatever happens later to the live objects, whatever the order in which iterations and keys are recorded; unrecorded cells are empty and unknown keys or negative iterations are rejected without side effects. After a run every iteration has a record of each tracked quantity, and the recorded evaluation counts, training sizes and posterior of an iteration agree with each other.",
 ["histories"],
 "every sequence of recordings, in-place mutations, gaps and rejected recordings",
 "Tests record a few values in order; aliasing, gaps and mutation after recording are sampled at most once.",
 ["pyvbmc/vbmc/iteration_history.py",V],
 [("record","IterationHistory.record, record_iteration, _expand_array, __setitem__"),("what is recorded","VBMC.optimize")],
 ["contents of the history after each operation and after each run"])

prop("P10","Saving, loading, rolling back and resuming preserve the run",
 "A saved run loads back with equal state; loading at an earlier iteration restores precisely the state at the end of that iteration with the history cut after it, rejects iterations out of range, never overwrites a file unless told to, and applies new options. Likewise, a saved posterior loads back as the same distribution. Resuming from any recorded iteration with the stored random state reproduces the remaining iterations of the original run, and continuing a finished run with a larger budget extends it without altering what was recorded.",
 ["histories","crash_points","configurations"],
 "every stopping/rollback iteration (including the end of warm-up, trims, kept and undone warps) and every sequence of save/load/continue",
 "Tests save and load at one or two iterations of one run.",
 [V],[("save/load","VBMC.save, VBMC.load"),("continuation","VBMC.optimize")],
 ["state after load","iteration history of original versus resumed run","files on disk"])

prop("P11","User options override defaults, are validated, and are immutable afterwards",
 "The effective value of every option is the user's if given, else the option file's (dimension-dependent defaults evaluated for the problem), noisy-target defaults replacing the base defaults only where the user said nothing; names that neither the defaults nor the given options file define are rejected, also when options are passed while loading a saved run. Once validated, options cannot be changed by assignment or update, copies are equal and independent, and callable options are evaluated with the supplied terms only.",
 ["configurations","histories"],
 "every combination of sources for an option and every sequence of mutation attempts",
 "Tests check some options in isolation; precedence between user, file and noise-dependent defaults and mutation orders are not enumerated.",
 ["pyvbmc/vbmc/options.py",V],
 [("precedence","Options.__init__, load_options_file, update_defaults"),("immutability","Options.__setitem__, update"),("evaluation","Options.eval")],
 ["option values read back, exceptions"])

prop("P12","Reparameterisation is atomic: kept consistently or undone completely",
 "A warp is attempted only after warm-up, with more than one dimension, enough components, a reliable previous iteration and the configured delay since the last attempt, doubling-counted when undone. A kept warp re-expresses every active observation, bounds and search region in the new coordinates so that original points and values are unchanged and transformed values carry the new volume correction; an undone warp restores the posterior, surrogate, log, state and hyperparameters exactly, apart from the attempt counters. It is kept only when the bound improves by the tolerance without the uncertainty blowing up.",
 ["histories","configurations"],
 "every history of warp attempts and outcomes, every data set and option combination",
 "Tests warp a fixed posterior once and never undo inside a run.",
 ["pyvbmc/whitening/whitening.py",V],
 [("warp","warp_input, warp_gp_and_vp"),("undo","VBMC.optimize")],
 ["state before and after each attempt","arguments seen by later stages"])

prop("P13","Coordinate transforms are inverse to each other with the right volume factor",
 "For every combination of unbounded, logit-, probit- and Student-bounded coordinates, scaling and rotation, mapping to the unconstrained space and back returns the original point (clamped strictly inside the bounds), plausible bounds map to the standard box, and the reported log-volume factor is the logarithm of the Jacobian determinant of the inverse map. Batches are treated row by row, inputs are never modified, and transforms that differ in any parameter compare unequal.",
 ["inputs","configurations"],
 "every mix of bound types and bounds, plausible ranges, scales, rotations and points, including points on or next to the bounds",
 "Tests fix one transform type in all coordinates and a few points.",
 ["pyvbmc/parameter_transformer/parameter_transformer.py"],
 [("direct/inverse/jacobian","ParameterTransformer.__call__, inverse, log_abs_det_jacobian"),("equality","ParameterTransformer.__eq__")],
 ["returned arrays"])

prop("P14","Variational parameters survive every export and import",
 "Exporting the parameter vector and importing it into any compatible posterior reproduces the same mixture: means, per-component and per-coordinate scales (normalised so that the scale vector has mean square one without changing the covariances) and weights, for every subset of parameters marked as optimisable, with the raw or natural encoding. Parameters not marked as optimisable stay as they were, weights stay normalised and non-negative, vectors with negative scales or weights (natural encoding) are rejected, and importing invalidates the cached mode.",
 ["inputs","configurations","histories"],
 "every subset of optimisable groups, number of components and dimension, and every get/set/mode sequence",
 "Tests check a few subsets with random values.",
 ["pyvbmc/variational_posterior/variational_posterior.py"],
 [("get","VariationalPosterior.get_parameters"),("set","VariationalPosterior.set_parameters"),("bounds","VariationalPosterior.get_bounds")],
 ["parameter vectors and attributes"])

prop("P15","Posterior density, samples and moments describe the same mixture",
 "Density, log-density and gradients equal those of the mixture in the requested coordinates (with volume correction in original coordinates and zero density outside the bounds); samples are drawn from the same mixture, with exact component quotas when balanced, are always of the requested shape and inside the bounds, and moments equal the mixture's (analytically in transformed coordinates). Divergences between posteriors are non-negative, vanish for identical posteriors and use the given samples.",
 ["inputs","configurations"],
 "every mixture (weights, components, scales), coordinate type, sample size and flag combination",
 "Tests use a few fixed mixtures; quota rounding, zero weights and mixed transforms are not enumerated.",
 ["pyvbmc/variational_posterior/variational_posterior.py"],
 [("sample","VariationalPosterior.sample"),("pdf","VariationalPosterior.pdf"),("moments/kl/mtv","VariationalPosterior.moments, kl_div, mtv")],
 ["returned arrays"])

prop("P16","The number of mixture components grows and shrinks only as prescribed",
 "The requested number of components never decreases by request, grows during the main phase by at most one plus the adaptive bonus and only after improving, unpruned iterations, and never exceeds the cap for the effective amount of data. After an optimisation every removed component had a weight below the pruning threshold, removal changed the bound by no more than the tolerance, at least one component remains, and all per-component quantities keep the same length and order.",
 ["histories","configurations","inputs"],
 "every history of bounds, prunings, reliability and warm-up flags; every mixture entering the pruning step",
 "Tests check a couple of fabricated histories; pruning is only seen incidentally.",
 ["pyvbmc/vbmc/variational_optimization.py"],
 [("growth","update_K"),("initialise/prune","optimize_vp, _initialize_full_elcbo, _vp_bound_loss")],
 ["return of update_K","posterior after optimisation"])

prop("P17","Array-valued entry points accept every documented shape equivalently",
 "Every public function documented to take one point or a batch gives the same numbers for a scalar or list (one dimension), a flat vector and a one-row matrix, returns the documented shape, treats a batch as its rows, and rejects incompatible dimensions. Arguments, including integer-typed arrays, are neither modified nor silently truncated.",
 ["inputs"],
 "every entry point, dimension, input container and element type",
 "Tests pass one shape per function, nearly always float arrays.",
 ["pyvbmc/decorators/handle_0D_1D_input.py","pyvbmc/priors/tile_inputs.py","pyvbmc/parameter_transformer/parameter_transformer.py","pyvbmc/variational_posterior/variational_posterior.py","pyvbmc/priors/prior.py"],
 [("shape decorator","handle_0D_1D_input"),("tiling","tile_inputs")],
 ["return values and shapes, argument contents after the call"])

prop("P18","Prior densities are the documented normalised densities on their supports",
 "Every prior's log-density equals the logarithm of its documented piecewise density (uniform, trapezoidal, spline-smoothed, smoothed box, products, wrapped distributions) at every point including kinks and bounds, is minus infinity outside the support, and integrates to one; independent coordinates multiply. Inconsistent parameters are rejected and samples stay in the support.",
 ["inputs","configurations"],
 "every ordering of the defining points, every dimension and every evaluation point relative to them",
 "Tests check random interior points and one normalisation per class.",
 ["pyvbmc/priors/uniform_box.py","pyvbmc/priors/trapezoidal.py","pyvbmc/priors/spline_trapezoidal.py","pyvbmc/priors/smooth_box.py","pyvbmc/priors/product.py","pyvbmc/priors/scipy.py","pyvbmc/priors/prior.py"],
 [("densities","*._log_pdf / *._logpdf"),("public density","Prior.log_pdf, Prior.pdf"),("sampling","*.sample")],
 ["returned densities, supports, samples, exceptions"])

prop("P19","The optimised target is exactly log-likelihood plus log-prior",
 "For every admissible way of specifying the problem (log-joint alone, log-likelihood with a prior object, a distribution, a list of marginals, or a log-prior function; with or without user-specified noise), the logged value at a point is the sum of the user's log-likelihood and log-prior there, the noise is the user's, and each user function is called exactly once per evaluation with the same point. Conflicting or ill-typed specifications are rejected.",
 ["configurations","inputs"],
 "every combination of target, prior kind, noise option, dimension",
 "Tests cover several combinations but only check values at a single point and not call counts or noise pass-through.",
 [V,"pyvbmc/priors/convert_to_prior.py"],
 [("composition","VBMC._init_log_joint, VBMC.__init__"),("prior conversion","convert_to_prior")],
 ["values in the log; calls received by user functions"])

prop("P20","Timers measure exactly the intervals between matching starts and stops",
 "For every sequence of starting, stopping, resetting and reading named timers, the reported duration of a timer is the sum of the intervals prescribed by the documentation, unknown or unstarted timers report nothing, and timers do not influence each other.",
 ["histories"],
 "every sequence of operations on several timers with an arbitrary clock",
 "Tests use the real clock and one start/stop pair.",
 ["pyvbmc/timer/timer.py"],
 [("timer","Timer.start_timer, stop_timer, get_duration, reset")],
 ["reported durations under a controlled clock"])

prop("P21","Provided starting points and values are used first and never re-evaluated",
 "The initial design contains every user-provided starting point (the first ones, up to the design size) in the given order; those with a provided value are logged with that value without calling the target, the others are evaluated once; the remaining points are drawn inside the plausible box (or around the first point for the narrow design) and evaluated once each. Mismatched numbers of points and values and unknown designs are rejected.",
 ["inputs","configurations"],
 "every number of provided points and values (present or missing), design size, design type and bounds",
 "Tests cover a few counts.",
 ["pyvbmc/vbmc/active_sample.py",V],
 [("initial design","active_sample (no surrogate yet)"),("cache","VBMC._init_optim_state")],
 ["calls received by the target and contents of the log"])

prop("P22","Each active step adds the best candidate and keeps the surrogate in step",
 "Each requested active sample evaluates the target exactly once, at the candidate with the lowest acquisition value among the search set, improved upon only if the optional local search finds a strictly lower value; between samples the surrogate is updated so that its data equal the log's active points including the newest one. With full updates between samples, the surrogate (and posterior) are refitted with the active-sampling settings, options and state are afterwards as before, and the earlier posterior is returned if its bound on the updated surrogate is higher. Search sets have the requested size and composition and lie in the search region, which grows towards but never beyond the hard bounds when a chosen point is near its edge.",
 ["histories","configurations","inputs"],
 "every acquisition landscape, search-set composition, optimiser outcome, noise level and number of samples",
 "Tests mostly check that the number of points grows.",
 ["pyvbmc/vbmc/active_sample.py"],
 [("active loop","active_sample"),("search set","_get_search_points")],
 ["target calls, log, surrogate data, search bounds after the call"])

prop("P23","Acquisition values follow their formulas and reject inadmissible candidates",
 "For any surrogate predictions, posterior density and training data, each standard acquisition function returns its documented formula of the total predictive variance (mean of variances plus variance of means over hyperparameter samples), mean and density, for the plain and logarithmic variants alike; candidates beyond the shrunk hard bounds get an infinite value, low-variance candidates are penalised when regularisation is on, and results are finite or plus infinity and one value per candidate. The interquartile-range acquisitions (VIQR, IMIQR) follow their formula over the importance points. Acquisition options given as text build the same function as the object.",
 ["inputs","configurations"],
 "every combination of predictions, number of hyperparameter samples, candidates, regularisation and bound geometry",
 "Tests use single-sample stubs for a few values.",
 ["pyvbmc/acquisition_functions/abstract_acq_fcn.py","pyvbmc/acquisition_functions/acq_fcn.py","pyvbmc/acquisition_functions/acq_fcn_log.py","pyvbmc/acquisition_functions/acq_fcn_noisy.py","pyvbmc/acquisition_functions/acq_fcn_vanilla.py","pyvbmc/acquisition_functions/utilities.py"],
 [("common part","AbstractAcqFcn.__call__"),("formulas","*._compute_acquisition_function")],
 ["returned values"])

prop("P24","The surrogate is trained on exactly the active observations",
 "Training, re-updating and high-density selection use all and only the log's active points with their transformed values and effective noise variances (combined over repeated measurements), in log order; the noise model of the surrogate takes these variances into account whenever the target is noisy; the high-density subset holds the requested fraction of points with the largest values; a training call leaves log unchanged.",
 ["histories","inputs"],
 "every pattern of active/inactive, repeated and noisy points",
 "Tests train on fully active logs only.",
 ["pyvbmc/vbmc/gaussian_process_train.py","pyvbmc/stats/get_hpd.py"],
 [("training data","_get_training_data"),("update","reupdate_gp, train_gp"),("hpd","get_hpd")],
 ["data held by the surrogate, returned subsets"])

prop("P25","Surrogate training effort follows the schedule",
 "The number of hyperparameter samples, the choice between sampling and optimisation, burn-in, thinning, and starting points follow the documented schedule as functions of training size, warm-up, stability, trims and configured limits: in the stable regime (enough training points or components, or sampling stopped) the configured number of stable samples is used, the configured maxima are never exceeded, and with no samples the hyperparameters are optimised instead; a quick refit is used only when the previous iteration was reliable and no full refit is due; starting points come from the recent half of the recorded surrogates and always include the current hyperparameters; the proposal widths of the sampler are the spread (standard deviations) of the hyperparameter samples of past iterations, weighted by age and by how much the posterior changed since (or of their running average, when so configured), widened with the unreliability of the previous iteration, and left to the library when there is a single sample only. The noise estimate is the median predictive noise at the top observations.",
 ["histories","configurations"],
 "every history of training sizes, warm-up phases, stop markers and option values",
 "Tests check a few points of the schedule.",
 ["pyvbmc/vbmc/gaussian_process_train.py"],
 [("schedule","_get_gp_training_options, train_gp"),("noise estimate","_estimate_noise")],
 ["training options passed to the surrogate library"])

prop("P26","The stochastic optimiser stays in bounds and reports what it visited",
 "For every objective, starting point within the bounds, bounds and step schedule, every evaluated and returned point is inside the bounds, the number of objective calls never exceeds the maximum, the returned tables list the visited points and values in order, the returned point is the average (or last) prescribed by the documentation, and early stopping happens only when the recent trend is flat within tolerance. The starting point is not modified.",
 ["inputs","histories","configurations"],
 "every sequence of gradients and values the objective may return",
 "Tests optimise two smooth functions.",
 ["pyvbmc/vbmc/minimize_adam.py"],
 [("optimiser","minimize_adam")],
 ["calls received by the objective and return values"])

prop("P27","The evidence bound is the expected log-joint plus the entropy",
 "For every mixture and surrogate the reported bound equals the surrogate's expected log-joint under the mixture plus the mixture's entropy estimate, its variance is the surrogate's integral variance averaged over hyperparameter samples plus their spread, and the statistics attached to the posterior are those of the returned parameters. The deterministic entropy bound and expected log-joint equal their closed forms, their gradients are the derivatives, and penalties only ever reduce the bound.",
 ["inputs","configurations"],
 "every mixture, surrogate mean function, number of hyperparameter samples and subset of optimised parameters",
 "Tests compare to stored reference numbers for two fixed mixtures.",
 ["pyvbmc/vbmc/variational_optimization.py","pyvbmc/entropy/entlb_vbmc.py","pyvbmc/entropy/entmc_vbmc.py"],
 [("bound","_neg_elcbo, _gp_log_joint"),("entropy","entlb_vbmc, entmc_vbmc"),("attach","optimize_vp")],
 ["returned values and gradients; posterior statistics"])

prop("P28","A run is a deterministic function of its inputs and random state",
 "Two runs with the same inputs, options and random state perform the same target calls in the same order and return the same result, regardless of other instances created, run, saved or loaded before or in between, and without modifying the caller's arrays, option dictionaries or prior objects.",
 ["histories","schedules"],
 "every interleaving of construction, running, saving and loading of two instances",
 "Tests run instances one at a time and do not compare runs or the caller's data afterwards.",
 [V,"pyvbmc/vbmc/options.py","pyvbmc/timer/timer.py"],
 [("construction","VBMC.__init__"),("run","VBMC.optimize")],
 ["target calls, results, caller's objects"])

prop("P29","Surrogate hyperparameters get the configured priors, bounds and first guess",
 "Whatever the data and options, the surrogate that is trained has the configured mean function and the noise model of the noise level; its length scales have a Student's t prior (3 degrees of freedom) centred at the configured multiple of the width of the plausible box, its noise one centred at the configured noise size (at least the minimum noise); its noise never goes below the configured minimum; the maximum of its mean stays below the lowest (constant mean) or just above the highest (negative quadratic) value of the high-density subset; a configured upper limit on the length scales is respected; lower bounds of length scales and output scale derive from the high-density subset; everything else is left unconstrained; and the first guess is the library's for that subset, with the configured noise.",
 ["inputs","configurations"],
 "every data set, plausible box, noise level, mean function and value of the options involved",
 "Tests look at the defaults only, for one data set; an ignored or mixed-up bound still gives a working surrogate.",
 ["pyvbmc/vbmc/gaussian_process_train.py"],
 [("bounds and priors","_gp_hyp"),("model","train_gp")],
 ["bounds, priors and starting point of the surrogate handed to the library for training"])

prop("P30","Sample statistics: kernel density estimates and Gaussian divergences are exact",
 "The kernel density estimate of any samples is taken on an even mesh of the next power of two of the requested number of points, spanning the given bounds (by default the range of the samples extended by a tenth at each end); it is the histogram of the samples within the bounds smoothed by a Gaussian of the returned bandwidth with reflection at both ends, so it is nonnegative and integrates to one, whatever the order and layout of the samples; the bandwidth solves the fixed-point equation of the diffusion estimator (smallest solution found by widening the search), or is Scott's rule when there is none; invalid sizes and crossed bounds are rejected. The divergence between two Gaussians is the closed form in both directions, infinite for singular covariances. Inputs are not modified.",
 ["inputs"],
 "every set of samples (repeated, clustered, outside or on the bounds), mesh size and bounds; all means and covariances",
 "Tests compare a few stored reference outputs.",
 ["pyvbmc/stats/kde_1d.py","pyvbmc/stats/kl_div_mvn.py"],
 [("density","kde_1d"),("divergence","kl_div_mvn")],
 ["returned density, mesh, bandwidth and divergences"])

prop("P31","Importance points of the interquantile acquisitions carry proper weights",
 "For the integrated interquantile acquisition, the requested numbers of points are drawn from a smoothed copy of the posterior's mixture (the mixture itself and three versions widened by fixed amounts) and uniformly from boxes of two standard deviations around the training points; every point has, for every hyperparameter sample, the log weight surrogate mean minus log density of the whole proposal mixture (posterior part and boxes weighted by their numbers of points), the weights summing to one over all points and hyperparameter samples; with the optional Markov chain step, the points of each hyperparameter sample carry mean minus the log density the chain targets, and stay within the widened range of the training inputs. For the variational interquantile acquisition the points are samples of the posterior with equal weights, and a number of points that is not positive is rejected. The recorded predictive variances and covariances are those of the surrogate at these points, and the acquisition value at any candidate is the formula over exactly these points and weights. The fractional effective sample size is one over the number of points times the sum of squared normalised weights, for given points, given surrogate means, or a number of points to draw. Posterior and surrogate are not modified.",
 ["inputs","configurations"],
 "every posterior, surrogate, number of points of each kind and random draw",
 "Tests check shapes and a few stored values with the default numbers of points; a wrong proposal density only biases the choice of the next evaluation.",
 ["pyvbmc/vbmc/active_importance_sampling.py","pyvbmc/acquisition_functions/acq_fcn_imiqr.py","pyvbmc/acquisition_functions/acq_fcn_viqr.py"],
 [("importance points","active_importance_sampling, active_sample_proposal_pdf"),("effective sample size","fess"),("values","AcqFcnIMIQR/AcqFcnVIQR")],
 ["points, log weights, variances and covariances, acquisition values, effective sample size"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
