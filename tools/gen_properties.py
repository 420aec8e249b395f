"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Every stored particle record is coherent",
  "For every particle the sampler ever exposes (results dictionary, posterior output, saved state), the stored log-likelihood, log-prior and blob are exactly the values the user's likelihood and prior give at that particle's stored parameter values, and the stored latent coordinates and log-Jacobian are those of the same point under the sampler's reparameterisation. Warm-up replacement, resampling, accept/reject and restoring a checkpoint move all of these fields together or not at all, and no supported kind of blob (scalar, vector, named fields, strings/objects) or all-rejected step makes a run fail.",
  ["inputs", "configurations", "histories"],
  "every prior, likelihood (including -inf regions), blob type, boundary condition, MCMC kernel, resampling scheme, seed, and every iteration of every run",
  "The two run() tests only check that run() returns; no test inspects a stored record, uses blobs, boundary conditions, -inf likelihoods, rwm, systematic resampling or precondition=False.",
  ["pocomc/sampler.py", "pocomc/mcmc.py", "pocomc/particles.py"],
  [("warm-up replacement of infinite-likelihood rows", "Sampler.run"), ("joint index of all arrays", "Sampler._resample / Sampler._reweight"), ("masked accept of all fields", "mcmc kernels, 'Accept new points'"), ("per-iteration append", "Particles.update"), ("likelihood/blob unpacking", "Sampler._log_like")],
  [("results", "per-iteration u,x,logdetj,logl,logp,blobs", "Sampler.results")],
  ["Sampler.results", "Sampler.posterior", "state files"])

p("C02", "Likelihood and population stay inside the prior's support",
  "The user's likelihood is only ever evaluated at points with finite coordinates, inside the prior's bounds and with finite prior log-density, during warm-up, MCMC and evidence estimation alike. For likelihoods returning finite values or minus infinity, no stored particle ever lies outside the support or carries a non-finite log-likelihood or log-prior; a proposal outside the support or with log-likelihood of minus infinity (or undefined acceptance ratio) is always rejected.",
  ["inputs", "configurations", "histories"],
  "every prior including custom priors whose support is a strict subset of their box, every likelihood with -inf regions (at least one finite draw per warm-up batch), every kernel, transform and boundary condition, every step",
  "Tests use two unbounded Gaussians with an everywhere finite likelihood: the support guard is never exercised.",
  ["pocomc/mcmc.py", "pocomc/sampler.py", "pocomc/scaler.py"],
  [("finite masks before prior and likelihood", "mcmc kernels"), ("-inf for masked proposals, NaN ratio -> 0", "mcmc kernels"), ("finite prior filter", "Sampler._compute_evidence"), ("infinite-likelihood replacement", "Sampler.run warm-up")],
  (), ["calls received by the user's likelihood", "Sampler.results"])

p("C03", "Temperature ladder is monotone and chosen by the sample-size rule",
  "The inverse temperature is 0 for all warm-up iterations, never decreases and never leaves [0,1]. Each later iteration keeps the previous temperature if the effective (or unique) sample size of all particles collected so far, reweighted to it, is already at or below the current target; otherwise it jumps to 1 if the sample size at 1 is at least the target; otherwise it takes a temperature whose sample size is within 1% of the target. The sample size recorded for each such iteration is the one at the chosen temperature (warm-up records the target), and the target stays fixed without dynamic allocation and otherwise changes only by the documented unique-particle ratio rule.",
  ["inputs", "configurations", "histories"],
  "every likelihood scale, number of active/effective particles, metric ess/uss, dynamic on/off, every iteration",
  "No test looks at the temperatures; a run with a wrong schedule still returns.",
  ["pocomc/sampler.py", "pocomc/tools.py", "pocomc/particles.py"],
  [("bisection on beta", "Sampler._reweight"), ("dynamic n_effective update", "Sampler._reweight"), ("effective_sample_size / unique_sample_size", "tools.py")],
  [("beta", "inverse temperature per iteration", "results['beta']"), ("n_effective", "target sample size", "Sampler.n_effective")],
  ["Sampler.results beta/ess", "Sampler.n_effective at save points"])

p("C04", "Importance weights and SMC evidence follow the persistent-mixture rule",
  "For any history of iterations, each particle's unnormalised log-weight at a temperature equals its tempered log-likelihood minus the log of the average over all iterations of (its log-likelihood tempered to that iteration, divided by that iteration's evidence); reported log-weights are these normalised to sum to one in probability, and the evidence estimate is the log of their mean. The evidence recorded for each iteration is this estimate at the iteration's temperature (carried over unchanged when the temperature does not move, zero in warm-up), and the final evidence without importance sampling is this estimate at temperature 1 with no error bar. The published sample-size helpers agree with their defining formulas for every weight vector (floating-point or whole-number) and leave the caller's arrays unchanged.",
  ["inputs", "histories", "configurations"],
  "every history of betas, evidences and log-likelihoods (any magnitude), every run",
  "Only compute_ess of a single particle is tested; neither weights nor evidence are ever compared with anything.",
  ["pocomc/particles.py", "pocomc/sampler.py", "pocomc/tools.py"],
  [("compute_logw_and_logz", "particles.py"), ("logz bookkeeping", "Sampler._reweight"), ("SMC evidence branch", "Sampler.run"), ("effective_sample_size, unique_sample_size, compute_ess, increment_logz", "tools.py")],
  (), ["Sampler.results logw/logz", "Sampler.evidence"])

p("C05", "Runs stop exactly at the stopping rule and history only grows",
  "A run returns only when the temperature has reached 1 (within 1e-4) and the total effective (or unique) sample size at temperature 1 is at least the requested total, and it performs no iteration after the first moment both hold; calling run again with a larger total continues from there. Every iteration appends exactly one complete entry of n_active particles to the history, already recorded entries never change, iteration indices count 0,1,2,..., and the results dictionary always reflects the full current history, also after it was read earlier.",
  ["histories", "configurations"],
  "every sequence of run / continue / read-results / resume calls, any totals, metrics and sizes",
  "test_run only calls run() once and reads nothing; no test continues a run or reads results.",
  ["pocomc/sampler.py", "pocomc/particles.py"],
  [("_not_termination", "sampler.py"), ("Particles.update / compute_results", "particles.py"), ("iteration counter t", "Sampler.run/_reweight")],
  (), ["Sampler.results before/after each run call"])

p("C06", "Likelihood-call counter equals the number of evaluations made",
  "The cumulative call count recorded with each iteration, and the sampler's own running total, equal the exact number of parameter vectors at which the user's likelihood has been evaluated up to that point of the run's lineage, including warm-up, every MCMC step (rejected-for-support proposals are not evaluated and not counted) and importance-sampling evidence, also after continuing a finished run or resuming a checkpoint. The recorded number of MCMC steps is the number of proposal rounds actually made.",
  ["histories", "configurations"],
  "every kernel, evaluation mode (serial, pool, vectorised), support restriction, run/continue/resume history",
  "No test counts likelihood calls.",
  ["pocomc/sampler.py", "pocomc/mcmc.py"],
  [("n_calls accumulation", "mcmc kernels"), ("calls hand-over", "Sampler._mutate, Sampler.run, Sampler._compute_evidence")],
  (), ["results['calls'], results['steps'], Sampler.calls", "call log of the user's likelihood"])

p("C07", "All four MCMC kernels are valid Metropolis-Hastings moves",
  "In every step of every kernel (t-preconditioned Crank-Nicolson and random walk, with and without flow) the acceptance probability of each walker is min(1, target ratio times proposal correction), where the target is likelihood^beta x prior x all transformation Jacobians and the correction makes the proposal reversible: the fitted Student-t density ratio for Crank-Nicolson moves (whose proposals leave that Student-t invariant) and 1 for the random walk (whose proposals are symmetric); the recorded acceptance is their mean. A walker moves to its own proposal as a whole with exactly that probability (always if it is 1, never if it is 0) and otherwise keeps every field unchanged; the number of steps is between 1 and the allowed maximum (at least one step is always made).",
  ["inputs", "histories", "configurations"],
  "every walker state, temperature, prior/likelihood, geometry, flow, transform, boundary condition, and every step of a multi-step call",
  "The kernels have no tests at all; a wrong Jacobian sign still lets run() finish.",
  ["pocomc/mcmc.py", "pocomc/tools.py"],
  [("Metropolis factors and accept masks", "preconditioned_pcn, preconditioned_rwm, pcn, rwm"), ("flow_numpy_wrapper sign convention", "tools.py")],
  (), ["kernel return value", "likelihood/prior/flow calls made by the kernel", "progress statistics"])

p("C08", "Resampling is unbiased and draws only from the weighted population",
  "Systematic resampling of any size from any non-negative weight vector returns a non-decreasing list of valid indices of that size in which index i occurs floor(size*w_i) or ceil(size*w_i) times for normalised w, for every random offset including the extremes, with expected count size*w_i; it is reproducible under a given seed and does not modify the weights it is given. In a run, every iteration draws exactly n_active ancestors from all particles collected so far according to the trimmed weights at the new temperature (systematic: floor/ceil counts; multinomial: those probabilities), and particles of zero weight are never drawn.",
  ["inputs", "schedules", "configurations"],
  "all weight vectors (unnormalised, with zeros, rounding sums), sizes, random offsets, both schemes",
  "systematic_resample has no test and is not on the path of any test except through geometry fitting.",
  ["pocomc/tools.py", "pocomc/sampler.py"],
  [("systematic_resample", "tools.py"), ("Sampler._resample", "sampler.py"), ("Sampler.posterior(resample=True)", "sampler.py")],
  (), ["tools.systematic_resample", "Sampler.results under a likelihood that rejects every move"])

p("C09", "Weight trimming keeps the heaviest particles and the promised ESS",
  "Trimming a weighted sample to a requested fraction in (0,1] always returns, keeps sample and weight aligned, keeps exactly the particles whose weight is at or above a threshold (never dropping a heavier particle than one it keeps), renormalises the kept weights proportionally to sum to one, and the effective sample size of the kept set is at least the requested fraction of the untrimmed one. Among the percentile thresholds on the requested grid it uses the most aggressive that satisfies this. The caller's arrays are not modified.",
  ["inputs"],
  "all weight vectors (ties, zeros, one dominant weight, equal weights), fractions up to and including 1, numbers of bins",
  "trim_weights has no test.",
  ["pocomc/tools.py", "pocomc/sampler.py"],
  [("trim_weights", "tools.py")], (), ["tools.trim_weights", "Sampler.posterior(ess_trim=..., bins_trim=...)"])

p("C10", "Saving a state is atomic under crashes",
  "At every instant during and after saving a state to a path, and after a crash (process kill or loss of unsynced file data) at any point of the save, the file at that path is either absent/the complete previous state or the complete new state, never a torn, empty or unloadable one. A completed save leaves a complete, loadable file whose data was flushed to disk before it took the final name, and saving never modifies other saved states, also when saves to different files overlap in time.",
  ["crash_points", "fault_sequences"],
  "every crash point between any two file-system operations of a save, torn writes, write errors (e.g. disk full), first save and overwrite",
  "test_save only checks that the file exists after a successful call; no crash or I/O error is ever injected.",
  ["pocomc/sampler.py"],
  [("temp file + flush + fsync + rename", "Sampler.save_state")], (), ["file-system calls issued during Sampler.save_state", "files on disk after an injected crash"])

p("C11", "A resumed run continues exactly the saved run",
  "Loading any state file written by save_state or save_every (before the first run, mid-warm-up, between iterations, final) can be resumed and restores everything the continuation depends on: once the prior samples are drawn, resuming it with the random generators in their state at save time produces, entry for entry, the same history and results as the run that was not interrupted. In particular recorded history is a prefix of the resumed history, no prior sample is evaluated or recorded twice, and the resuming sampler keeps its own evaluation pool. Periodic state files appear exactly every save_every iterations under output_dir/label_iteration.state plus a final one, each holding the state at that iteration.",
  ["histories", "crash_points", "configurations"],
  "every iteration at which a run is cut and resumed, every configuration, save_every value, repeated resume chains",
  "test_resume resumes one file and asserts nothing about the result (it even records a prior batch twice unnoticed).",
  ["pocomc/sampler.py", "pocomc/particles.py"],
  [("save_state / load_state", "sampler.py"), ("resume branch, warm-up loop, save_every schedule", "Sampler.run")],
  (), ["state files", "results of resumed vs uninterrupted run"])

p("C12", "posterior() returns aligned, correctly weighted samples for every option set",
  "For every combination of its options, posterior() returns arrays of equal length in which row k of samples, log-likelihood, log-prior, (log-)weight and blobs belong to the same recorded particle; weights are non-negative, sum to one and are proportional to the importance weights at temperature 1 (log-weights equal their logarithms up to one additive constant); without trimming every recorded particle appears once in order; resampled output contains only positive-weight particles with counts following the configured scheme. Asking for blobs of a run without blobs is refused, and calling posterior() changes neither the recorded history nor later answers.",
  ["inputs", "configurations", "histories"],
  "all option combinations (resample, blobs, trim, log-weights, ess_trim, bins_trim), both resampling schemes, before/after continuation and resume",
  "posterior() is never called by the tests.",
  ["pocomc/sampler.py", "pocomc/tools.py", "pocomc/particles.py"],
  [("Sampler.posterior", "sampler.py")], (), ["Sampler.posterior", "Sampler.results"])

p("C13", "Results do not depend on how the likelihood is evaluated",
  "With the same seed and settings, evaluating the likelihood serially, through any pool whose map returns results in order (internal process pool of any size from one, external pool, MPI pool, in whatever order tasks actually finish) or vectorised gives identical histories, posteriors and evidences; every point is evaluated exactly once per request and its value and blob are attributed to that point. Extra positional and keyword likelihood arguments are passed unchanged in every mode. Two runs with the same random_state are identical.",
  ["schedules", "configurations", "inputs"],
  "all completion orders of pool tasks, pool kinds, blobs, kernels, seeds",
  "Tests run serial and vectorised once each and never compare them; no pool test exists.",
  ["pocomc/sampler.py", "pocomc/tools.py", "pocomc/parallel.py"],
  [("_log_like dispatch", "sampler.py"), ("FunctionWrapper", "tools.py"), ("seeding", "Sampler.__init__")], (), ["Sampler.results under different pools"])

p("C14", "MPI pool map: every task done once, results in task order, no deadlock",
  "For any number of workers and tasks (including none, and more or fewer tasks than workers) and any order in which workers finish, map returns the list of results in task order, each task having been executed exactly once by exactly one worker that was idle, and it always returns once workers make progress, also when used repeatedly. Workers answer each task with the task's own tag and leave their loop exactly when told to quit; close tells every worker, and only workers, to quit.",
  ["schedules"],
  "all interleavings of master and worker communication steps, buffered and synchronous sends, numbers of workers/tasks, repeated map calls",
  "mpi4py is not installed and parallel.py has no test.",
  ["pocomc/parallel.py"],
  [("MPIPool.map / wait / close", "parallel.py")], (), ["communicator operations of MPIPool", "return value of map"])

p("C15", "Reparameterisation is an in-bounds bijection with the exact log-Jacobian",
  "For every mix of unbounded, one-sided and two-sided parameters, both transforms and both scalings (diagonal or full), forward and inverse undo each other on the interior, inverse always lands within the bounds, its log-determinant is the exact log-Jacobian of the inverse map, each parameter is transformed according to its own bounds only, and two-sided edge points map to finite latent values. Fitting standardises the latent training data (zero mean, unit variance / identity covariance) and rejects data outside the bounds. Periodic and reflective conditions map any finite value into the bounds, to the point congruent modulo the period or mirror image respectively, touching only the listed parameters and not the caller's array.",
  ["inputs", "configurations"],
  "all bound patterns, transforms, affine modes, points, periodic/reflective index lists and displacements of any number of periods",
  "Tests check allclose round trips for one dataset per bound type; Jacobian, logit, boundary conditions, mixed bounds and full covariance are never tested.",
  ["pocomc/scaler.py", "pocomc/input_validation.py"],
  [("Reparameterize.forward/inverse/fit/apply_boundary_conditions_x", "scaler.py")], (), ["Reparameterize methods"])

p("C16", "Prior is the product of its parts, column by column",
  "A prior built from a list of distributions has one dimension per distribution; bounds row i is the support of distribution i; the log-density of each row is the sum of the i-th distribution's log-density at the i-th coordinate (minus infinity as soon as one coordinate is outside); samples have one row per draw whose i-th column is drawn from distribution i, within its support, independently of the other columns.",
  ["inputs", "configurations"],
  "all lists and orders of distributions, sample sizes, points inside and outside the support",
  "Tests use identical standard normals only, so any column mix-up is invisible.",
  ["pocomc/prior.py"],
  [("Prior.logpdf/rvs/bounds/dim", "prior.py")], (), ["Prior methods"])

p("C17", "Flow maps are mutually inverse and densities are consistent",
  "For every flow architecture and any parameter values, the forward map followed by the inverse (and vice versa) is the identity up to single precision, their log-determinants are opposite and equal the log-Jacobian of the map, log_prob equals base log-density of the forward image plus the forward log-determinant, and sampled points are returned with their own log_prob. The array wrapper used by the MCMC kernels returns the same maps with the log-determinant of the inverse map in both directions. Double-precision input is accepted and treated as its single-precision value; unknown flow names are refused.",
  ["inputs", "configurations"],
  "all named flows and user-supplied flows, dimensions, trained or perturbed parameters, batches",
  "Tests check shapes and one reconstruction with default weights; no Jacobian or density identity is tested and the wrapper is untested.",
  ["pocomc/flow.py", "pocomc/tools.py"],
  [("Flow.forward/inverse/log_prob/sample", "flow.py"), ("flow_numpy_wrapper", "tools.py")], (), ["Flow and flow_numpy_wrapper methods"])

p("C18", "Flow training stops, restores and weighs samples as configured",
  "For every sequence of epoch losses, training runs at most the given number of epochs, stops at the first epoch in which the monitored loss (validation if a split is given, else training) has not improved for int(1.5*patience) epochs and then leaves the flow with the parameters it had at the best epoch; the returned loss history has exactly one entry per epoch run. Each sample contributes to exactly one of training or validation (the configured fraction being the validation part) with its own weight, whatever the shuffling, and losses are the weight-averaged negative log-densities plus the configured regularisation; configured noise perturbs the samples by that multiple of their mean nearest-neighbour distance. Inputs are not modified.",
  ["inputs", "histories", "configurations"],
  "all loss sequences (including NaN), patience values, split fractions, shuffles, weights, batch sizes",
  "test_fit only checks that fit returns.",
  ["pocomc/flow.py"],
  [("Flow.fit", "flow.py"), ("regularization_loss", "flow.py")], (), ["Flow.fit with an instrumented user flow"])

p("C19", "Importance-sampling evidence averages over all flow draws",
  "With importance sampling requested, the reported evidence is the log of the average, over all n_evidence draws from the flow, of likelihood x prior x Jacobian / flow density, draws outside the prior's support contributing zero; the reported error is the bootstrap standard deviation of that estimate. With it disabled (n_evidence=0 or no preconditioning) no draw is made and the SMC estimate without error is reported; evidence() always returns the values of the latest run.",
  ["inputs", "configurations", "histories"],
  "all priors (including restricted support), likelihoods, n_evidence, repeated runs",
  "evidence() is never called by the tests.",
  ["pocomc/sampler.py"],
  [("Sampler._compute_evidence", "sampler.py"), ("evidence branch of run", "Sampler.run")], (), ["draws and log-densities of a user-supplied flow", "Sampler.evidence"])

p("C20", "Configuration is resolved as documented or refused up front",
  "Whatever combination of sizes is given, the missing one of n_active / n_effective is derived from the other, the warm-up records 2*max(n_effective//n_active,1) batches of n_active prior samples by default and otherwise max(n_prior//n_active,1) batches, and the training frequency defaults to max(n_effective//(2 n_active),1), the flow being trained at the first annealing iteration, at every multiple of that frequency and at every iteration at temperature 1; user training options override only the named defaults. Unknown transform, metric, sampler, resampling scheme or flow, giving neither size, and vectorised likelihoods with declared blobs are refused with an error before the likelihood is ever called.",
  ["configurations", "inputs"],
  "all combinations of constructor arguments",
  "Tests construct the sampler with defaults only.",
  ["pocomc/sampler.py", "pocomc/flow.py", "pocomc/scaler.py"],
  [("Sampler.__init__", "sampler.py")], (), ["Sampler attributes after construction", "warm-up evaluations of a run"])

p("C21", "Proposal geometry is the weighted fit of the population",
  "For any non-degenerate weighted sample in any dimension including one, the fitted Gaussian geometry is the weighted mean and weighted sample covariance as a square matrix, and the fitted Student-t geometry is finite with symmetric positive-definite scale and finite positive degrees of freedom, satisfies the maximum-likelihood fixed-point equations for location and scale on the (resampled) data, and follows translation and rescaling of the data. In a run the geometry guiding the proposals is the fit to the trimmed weighted population of the iteration at which it was last fitted: every iteration without a flow, every training iteration with one.",
  ["inputs", "configurations"],
  "all sample sets, weights, dimensions >= 1, scales and offsets",
  "Geometry and Student fit have no tests.",
  ["pocomc/geometry.py", "pocomc/student.py"],
  [("Geometry.fit", "geometry.py"), ("fit_mvstud", "student.py")], (), ["Geometry attributes", "fit_mvstud return values"])

p("C22", "Posterior and evidence estimates are statistically consistent",
  "As the number of effective particles grows, posterior expectations and evidence estimates converge to the true values for any proper prior and integrable likelihood.",
  ["inputs", "configurations"],
  "all targets, in the limit of many particles",
  "A limit statement about probability distributions cannot be settled by finitely many runs.",
  ["pocomc/sampler.py", "pocomc/mcmc.py"],
  [("the whole algorithm", "Sampler.run")], (), ["posterior moments, evidence"])

p("C23", "An interrupted iteration leaves no trace and the run can be continued",
  "If the likelihood, the prior or the flow raises any exception (including KeyboardInterrupt) at any evaluation of a run - in a warm-up batch, during training, in any MCMC step or while the evidence is estimated - that very exception reaches the caller of run(), and the sampler is left as after the last completed iteration: the history holds exactly the completed iterations unchanged, and the iteration counter, the target number of effective particles and the count of likelihood calls are those of that iteration. Calling run() again, or saving the state and resuming it in a new sampler, continues as if the interrupted iteration had never begun: each prior batch is still recorded exactly once, indices stay consecutive, and temperatures, targets, weights, stored particles, stopping rule and evidence obey the same rules as in an uninterrupted run.",
  ["fault_sequences", "histories", "configurations"],
  "every point of a run at which user code may fail, every exception type, repeated failures, continuation in place or through a state file",
  "No test makes the likelihood fail; the points of failure are unboundedly many.",
  ["pocomc/sampler.py"],
  [("run loop", "Sampler.run"), ("evaluation", "Sampler._log_like")], (), ["exception seen by the caller of run()", "results and attributes after the exception", "the continued run"])

p("C24", "Observing or splitting a run does not change it",
  "For a fixed seed, the history of a run does not depend on how it is watched: reading results or evidence(), calling posterior() with any non-resampling options, saving the state, pickling the sampler (before the first run() or between any two run() calls), the value of progress, the value of save_every, and reaching a total in one run() call or in several with growing totals all leave the sequence of recorded iterations, the number of likelihood evaluations, the evidence and the posterior exactly those of one plain run() to the largest total. A run() call whose total is already reached adds nothing, and changing the arrays handed out by results or posterior() does not reach the recorded history.",
  ["histories", "configurations"],
  "every sequence of run() calls and looks, every configuration of the sampler",
  "The tests make single runs and never compare a watched run with an unwatched one; the sequences are unboundedly many.",
  ["pocomc/sampler.py", "pocomc/particles.py", "pocomc/tools.py"],
  [("run loop", "Sampler.run"), ("looks", "Sampler.posterior"), ("state file", "Sampler.save_state"), ("pickling", "Sampler.__getstate__")], (), ["results, evidence and posterior of the twin runs"])

p("C25", "Samplers in one process are independent and leave inputs alone",
  "Building, running, reading and saving samplers in one process, in any interleaving, with each sampler given its own state of the global random generators, leaves every sampler with exactly the history, evidence, posterior, counters and training options it has when it is used alone in a fresh process. This holds also when the samplers are built from the same prior, option dictionary, likelihood arguments and lists of periodic or reflective parameters; none of these caller-owned objects is ever modified, and no sampler touches state files written by another under a different label. A sampler built without a random_state neither reseeds nor depends on anything but the current state of the global generators.",
  ["histories", "configurations"],
  "every interleaving of operations on several samplers, every pair of configurations, shared or separate input objects",
  "Tests use one sampler at a time; interleavings of several are unboundedly many.",
  ["pocomc/sampler.py", "pocomc/particles.py", "pocomc/scaler.py", "pocomc/flow.py", "pocomc/tools.py", "pocomc/prior.py"],
  [("construction", "Sampler.__init__"), ("run loop", "Sampler.run"), ("history", "Particles"), ("boundary lists", "Reparameterize")], (), ["state of both samplers after every operation, compared with each alone"])

with open('/verif/properties.jsonl', 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['id']
        f.write(json.dumps(q) + '\n')
print(len(P))
