"""Writes properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "MCMC results do not depend on how the ensembles are scheduled",
  "For a given random seed and settings, an MCMC run returns the same samples in the same order, the same log-probabilities, "
  "the same convergence record and the same saved checkpoint whether its ensembles run serially or in parallel workers, and whichever "
  "worker takes each ensemble in whatever order the workers start and finish. Different ensembles of one run are statistically independent: "
  "they never replay one another's starting positions or random stream.",
  ["schedules", "configurations"],
  "every assignment of ensembles to worker processes, every start/finish order, every worker count, every seed and (walkers, ensembles, check interval, thinning, resume) configuration",
  "The tests run one serial and a few parallel chains on the real pool, whose order is whatever the OS does, and never compare the samples.",
  ["radvel/mcmc.py"],
  [("each sampler carries its own pickled random state; the pool's results are collected by ensemble", "radvel/mcmc.py mcmc(), _domcmc()")],
  ["return value of radvel.mcmc", "radvel.mcmc.statevars as recorded by the driver", "<conf>_rawchain.h5"])

p("C02", "A continued MCMC run keeps every saved sample and starts where it stopped",
  "Over any history of saved and continued MCMC runs sharing an output file, the file describes exactly one run: the one that last completed a "
  "convergence check. Continuing a run starts each ensemble from that ensemble's own last saved positions and keeps its saved samples, "
  "log-probabilities, burn-in state and convergence history unchanged as the beginning of what is returned and saved, dropping samples only when burn-in completes. "
  "A continuation with a different number of ensembles, walkers or free parameters is refused and leaves the file as it was.",
  ["histories", "configurations", "crash_points"],
  "every sequence of save / continue / mismatched continue / interrupted runs over the same file, serial or parallel, with the continuation reading and writing the same or different files",
  "The tests do one save followed by one proceed and look at the status file only; they never compare the chains before and after, nor reuse a file for a different run.",
  ["radvel/mcmc.py", "radvel/driver.py", "radvel/cli.py"],
  [("datasets <i>_chain, <i>_log_prob, <i>_accepted, crit, burned, auto*", "radvel/mcmc.py mcmc() save block"),
   ("proceed block that loads them and the settings check", "radvel/mcmc.py mcmc() proceed block")],
  ["<conf>_rawchain.h5", "return value of radvel.mcmc"])

p("C03", "A crash or disk error never destroys the last saved MCMC checkpoint",
  "While an MCMC run with saving enabled is killed, interrupted or hit by a disk error at any instant, the saved file on disk is at every moment either what it was "
  "before the run or the complete checkpoint of one of this run's convergence checks, never older than the last check whose saving had finished, and it can be continued. "
  "If a checkpoint cannot be written the caller is told by an exception.",
  ["crash_points", "fault_sequences", "histories"],
  "every file-system operation of the run as crash point, torn write, full disk, I/O error or interrupt, for fresh and continued runs, serial and parallel",
  "No test kills a run or makes a write fail; the guarantee is about every instant between two checks.",
  ["radvel/mcmc.py"],
  [("periodic save after each convergence check", "radvel/mcmc.py mcmc() save block")],
  ["<conf>_rawchain.h5 after the fault"])

p("C04", "Burn-in and stopping follow the convergence history",
  "For every sequence of convergence statistics, no statistic is evaluated before the minimum-steps or the minimum-percent threshold is passed; burn-in ends at, and only at, the first "
  "evaluation at which the Gelman-Rubin statistic is at most its burn-in limit or the autocorrelation factor at least its burn-in limit, and once later samples exist no sample from before it is returned. "
  "The run stops early exactly when two consecutive evaluations pass every mixing criterion, otherwise it runs all requested steps, and the step, burn-in and "
  "autocorrelation records describe what happened; a continued run carries its burn-in state on.",
  ["histories", "schedules", "configurations"],
  "every history of chain statistics that the sampler's randomness can produce, every threshold configuration, fresh and continued runs, serial and parallel",
  "Which checks pass is decided by random chains; the tests see the two or three histories their short runs happen to produce and assert nothing about them.",
  ["radvel/mcmc.py"],
  [("convergence_check gate and consecutive-pass counter", "radvel/mcmc.py convergence_check()"),
   ("burn-in completion and reset", "radvel/mcmc.py mcmc()"),
   ("criteria", "radvel/mcmc.py convergence_calculate()")],
  ["return value of radvel.mcmc", "mcmc section of the status file"])

p("C05", "Every sample returned keeps its own parameters, log-probability and place",
  "In every table of samples returned or stored by MCMC or nested sampling, each row's log-probability is the posterior's value at that row's named parameters. "
  "An unthinned MCMC table holds every kept step of every walker of every ensemble exactly once, ordered by walker, ensemble and step as the trend plot reads it, thinning by N keeps exactly every N-th step of every walker of it, and a nested-sampling "
  "table holds the backend's equally weighted samples in order with its evidence values, identically when loaded back from disk.",
  ["schedules", "histories", "configurations"],
  "every worker schedule, every resume history, every sampler backend result, every free/fixed parameter layout, every thinning",
  "The tests check that tables exist and are non-empty; pairing errors between reshaped chains and log-probabilities, or between ensembles finishing in different orders, stay invisible.",
  ["radvel/mcmc.py", "radvel/nested_sampling.py", "radvel/posterior.py", "radvel/likelihood.py"],
  [("reshaping of chains and log-probabilities into the table", "radvel/mcmc.py mcmc()"),
   ("results table and results.hdf5", "radvel/nested_sampling.py run(), load_results()")],
  ["return value of radvel.mcmc and radvel.nested_sampling.run", "results.hdf5"])

p("C06", "The wall clock never changes results",
  "Whatever the wall clock does during a run (frozen or too coarse to advance, stepped backwards, leaping ahead), MCMC runs and pipeline commands complete and produce the same samples, "
  "convergence record, artefacts and status records as under a well-behaved clock.",
  ["schedules", "fault_sequences"],
  "every sequence of values the real-time clock can return to the run",
  "Tests run under one well-behaved clock.",
  ["radvel/mcmc.py", "radvel/driver.py", "radvel/utils.py"],
  [("progress rate and elapsed-time messages are derived from the clock", "radvel/mcmc.py convergence_check(), mcmc()")],
  ["return value of radvel.mcmc", "output directory"])

p("C07", "A killed or failing pipeline command leaves the output directory usable",
  "If a pipeline command (fit, mcmc, ns, derive, ic, table) is killed, interrupted or hit by a disk error at any instant, the status file stays readable, keeps every record of the commands that completed before, and "
  "records the failed command either not at all or as a whole. Every artefact that the status file names is present and loads completely, being the version of the last completed or of the interrupted command. "
  "Running the failed command again then succeeds (for nested sampling: with overwriting or continuing requested).",
  ["crash_points", "fault_sequences", "histories"],
  "every file-system operation of every command as crash point, torn write, disk-full, I/O error or interrupt, over command histories",
  "Tests never kill a command, and always start from an empty directory with working storage.",
  ["radvel/driver.py", "radvel/posterior.py", "radvel/cli.py"],
  [("save_status read-modify-write", "radvel/driver.py save_status()"), ("artefact files", "radvel/driver.py mcmc(), nested_sampling(), derive(), tables()"),
   ("posterior pickle", "radvel/posterior.py Posterior.writeto()")],
  ["<conf>_radvel.stat and the files it names"])

p("C08", "Commands running at the same time on one output directory do not harm each other",
  "When several pipeline commands for one system run at the same time in one output directory, under every interleaving of their file operations, including their start-up in a directory that does not exist yet, "
  "each one completes as it would alone. Afterwards the status file is readable and holds the complete record of every command that completed, and every artefact it names loads completely.",
  ["schedules"],
  "every interleaving of the file-system operations of two or three commands whose prerequisites are already recorded (or, at start-up, that have none)",
  "Tests run one command at a time in one process.",
  ["radvel/driver.py", "radvel/cli.py", "radvel/posterior.py"],
  [("save_status read-modify-write", "radvel/driver.py save_status()"), ("output directory creation", "radvel/cli.py main()")],
  ["<conf>_radvel.stat and the files it names"])

p("C09", "Pipeline stages use their recorded prerequisites and refuse to run without them",
  "Over every history of pipeline commands, a command whose prerequisite has not been recorded is refused with an error and changes neither the status file nor any artefact. "
  "A command that runs uses the artefacts recorded by the latest completed run of its prerequisite: derived parameters and tables come row for row from the selected sampler's samples "
  "(MCMC when present, else nested sampling, unless chosen), sampling summaries are the quantiles of the stored samples, and each command changes only its own records.",
  ["histories", "configurations"],
  "every sequence of fit, mcmc, ns, derive, ic and table commands with every sampler choice, including failed commands in between",
  "The tests run the commands in one fixed good order plus a handful of single missing-prerequisite cases.",
  ["radvel/driver.py"],
  [("status sections and run flags", "radvel/driver.py load_status(), save_status()"), ("sampler choice", "radvel/driver.py _pick_sampler()")],
  ["<conf>_radvel.stat and the files it names"])

p("C10", "Nested-sampling results are replaced only on request and only as a whole",
  "An existing nested-sampling results file is never modified unless overwriting or continuing was requested, and a request without it is refused before any sampling. "
  "When replacing was requested and the run fails, is killed or meets a disk error at any instant, the results file on disk is still either the complete previous results or the complete new ones, and a write that failed is reported by an exception.",
  ["crash_points", "fault_sequences", "histories"],
  "every file operation of the run as crash point or disk fault, backend failures at every stage, every overwrite/proceed history and backend",
  "Tests check one FileExistsError; they never fail a run part way.",
  ["radvel/nested_sampling.py"],
  [("FileExistsError guard and results.hdf5 writer", "radvel/nested_sampling.py run()")],
  ["<output_dir>/results.hdf5"])

p("C11", "A nested-sampling run that died can always be continued",
  "After a nested-sampling run is killed or fails at any point at which its backend's own checkpoint is absent or complete, running again with continuing requested completes, resuming the checkpoint if there is one and starting afresh otherwise. "
  "A run never changes the option dictionaries of its caller, so the same call can be repeated.",
  ["crash_points", "histories", "fault_sequences"],
  "every backend, every crash point before, between and after backend checkpoints, every sequence of fresh / continued / repeated calls with shared option dictionaries",
  "Tests run proceed only after a run that finished, with fresh option dictionaries.",
  ["radvel/nested_sampling.py"],
  [("resume handling per backend", "radvel/nested_sampling.py _run_dynesty, _run_ultranest, _run_nautilus, _run_multinest")],
  ["outcome of radvel.nested_sampling.run"])

p("C12", "MultiNest scratch space is private, temporary and never the user's files",
  "A MultiNest run without an output directory keeps its working files in scratch space of its own: it never reads, changes or deletes anything that was on disk before, concurrent runs in the same working directory do not "
  "share it, and it is gone when the run ends, whether it succeeded, failed or was interrupted. With an output directory everything stays in that directory and nothing already there is deleted.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of concurrent runs, every failure point of the backend, every prior content of the working directory",
  "pymultinest is not installed where the tests run, and they could not see concurrent runs or leftovers anyway.",
  ["radvel/nested_sampling.py"],
  [("temporary output directory", "radvel/nested_sampling.py _run_multinest()")],
  ["file system around the working directory"])

p("C13", "A saved posterior is restored exactly, and a failed save keeps the old one",
  "A posterior saved by one process and loaded by another gives the same log-probability for every parameter vector and the same parameter values, free/fixed flags, priors and attached uncertainties, whatever sequence of fits, evaluations, "
  "summaries and earlier save/load cycles preceded the save. If a save is killed or fails at any instant, loading the file gives the complete previous or the complete new posterior, and a failed save is reported by an exception.",
  ["histories", "crash_points", "fault_sequences"],
  "every history of operations before the save, every likelihood type, every crash or disk fault during the save",
  "Tests reload a posterior in the process that wrote it, once, without comparing it, and never interrupt the write.",
  ["radvel/posterior.py", "radvel/likelihood.py", "radvel/model.py", "radvel/prior.py", "radvel/gp.py"],
  [("dill pickling", "radvel/posterior.py Posterior.writeto(), load()")],
  ["loaded posterior"])

p("C14", "Evaluating a posterior never depends on what was evaluated before, or failed",
  "The log-probability, nested-sampling likelihood, residuals and Gaussian-process prediction of a posterior at given parameter values are the same after any history of other evaluations, "
  "predictions at other times, copies, and evaluations that failed because the covariance matrix could not be factorised. A failed factorisation during a likelihood evaluation yields a log-probability of minus infinity, never an error or a wrong value, "
  "so a sampler can carry on.",
  ["histories", "fault_sequences"],
  "every sequence of evaluations, predictions, printing, copying and pickling, with solver failures injected at any of them, for plain, composite, GP and celerite likelihoods",
  "Tests evaluate one or two points on a fresh object; failures of the solver are never provoked.",
  ["radvel/likelihood.py", "radvel/gp.py", "radvel/posterior.py", "radvel/model.py"],
  [("parameter vector shared by likelihoods, model and priors", "radvel/model.py Vector"), ("kernel distances and covariance cached on the kernel", "radvel/gp.py, radvel/likelihood.py GPLikelihood"),
   ("solver failure handling", "radvel/likelihood.py GPLikelihood.logprob(), predict()")],
  ["return values of the public evaluation methods"])

p("C15", "A failing LaTeX run is contained",
  "Whether the LaTeX compiler succeeds, is missing, fails, is killed or the disk fills at any point, compiling a report leaves the process in the working directory it started in, leaves no temporary directory behind and deletes or "
  "truncates no figure or table of the output directory. A report PDF from an earlier run is replaced only by a complete new one.",
  ["fault_sequences", "crash_points"],
  "every compiler outcome and every file-operation failure while the report is built",
  "One test runs the real compiler once, in a working environment.",
  ["radvel/report.py", "radvel/driver.py", "radvel/utils.py"],
  [("temporary build directory", "radvel/report.py RadvelReport.compile()"), ("working_directory", "radvel/utils.py")],
  ["working directory, temporary directory and output directory after the call"])

p("C16", "Losing the C extension changes speed only",
  "Whenever the compiled Kepler solver cannot be loaded, at start-up or in any later or worker process, model velocities, likelihoods and fits computed by the fallback agree with those of the compiled solver to numerical precision for all "
  "bound orbits, including circular, highly eccentric, out-of-range and array inputs, and no command fails because of it.",
  ["fault_sequences", "configurations", "inputs"],
  "every way in which loading the extension fails, every process of a run in which it fails, every orbit sampled",
  "One test hides the extension once and compares a single curve.",
  ["radvel/kepler.py", "radvel/orbit.py", "radvel/__init__.py", "src/kepler.c", "src/_kepler.pyx"],
  [("import guard and fallback", "radvel/kepler.py rv_drive()")],
  ["rv_drive, posterior log-probability and fit results with and without the extension"])

p("C17", "A failing or interrupted MCMC run ends cleanly",
  "When a likelihood evaluation raises in any worker at any step, the exception reaches the caller of the MCMC run; when the user interrupts it at any point the run ends at once without a result and without another error. "
  "However a run ends, no worker processes are left, an interactive terminal is restored, and a new run in the same process behaves as in a fresh one.",
  ["fault_sequences", "schedules"],
  "every evaluation at which a worker or the serial loop fails, every point of an interrupt, every worker schedule, interactive or headless",
  "Tests never make a likelihood raise or interrupt a run.",
  ["radvel/mcmc.py"],
  [("KeyboardInterrupt handler and terminal close", "radvel/mcmc.py mcmc(), _closescr()"), ("pool handling", "radvel/mcmc.py mcmc()")],
  ["exception seen by the caller, live workers, terminal state"])

p("C18", "A long-lived session gives the same answers as a fresh process",
  "Over every history of analyses in one session, successful or failed and on any mix of systems, the next fit, MCMC run, nested-sampling run, model comparison, derivation or table gives exactly the result it gives in a fresh process "
  "with the same inputs and random seed.",
  ["histories", "fault_sequences"],
  "every sequence of analyses in one process, with some of them failing part way, followed by any analysis",
  "Every test starts from whatever module state the previous one left and asserts nothing that depends on it.",
  ["radvel/mcmc.py", "radvel/fitting.py", "radvel/driver.py", "radvel/utils.py", "radvel/nested_sampling.py"],
  [("module-level MCMC state and its reset", "radvel/mcmc.py statevars"), ("mutable defaults", "radvel/fitting.py model_comp()"), ("setup module loading", "radvel/utils.py load_module_from_file()")],
  ["return values and artefacts"])

p("C19", "Commands always use the current contents of the setup file",
  "Every command and every load of a setup file uses the contents the file has at that moment, for every history of edits and loads and whatever time stamps the file system gives the edits. "
  "Loading a setup file never changes it and never lets one setup file's definitions leak into another's, even if they share a name.",
  ["histories", "fault_sequences"],
  "every sequence of edits and loads with coarse, equal, backward-stepped or future file time stamps, one or several processes",
  "Tests load static example files.",
  ["radvel/utils.py", "radvel/driver.py"],
  [("setup module loading", "radvel/utils.py load_module_from_file(), initialize_posterior()")],
  ["posterior built from the setup file"])

p("C24", "A fit returns the best parameters it found",
  "A maximum a posteriori fit that ends, on its own, as a pipeline command, inside a model comparison or after sampling, whatever was evaluated before it and whichever evaluations failed on the way (minus infinity or NaN), leaves the posterior at the best point it evaluated: "
  "never at a lower posterior probability than any point it evaluated, its starting point included. It changes free parameters (and analytic offsets) only, and parameters, parameter vector, comparison entries, printed and saved values all describe that same point.",
  ["histories", "fault_sequences"],
  "every history of evaluations, copies, reloads, fits and interrupted fits, every optimizer, every set of failing evaluations, then the fit",
  "Tests run a few fits in which nothing fails and check that they end.",
  ["radvel/fitting.py", "radvel/driver.py", "radvel/posterior.py"],
  [("fit", "radvel/fitting.py maxlike_fitting()"), ("model comparison", "radvel/fitting.py model_comp()"), ("fit after sampling", "radvel/driver.py sampling_postprocessing()")],
  ["every evaluation made during the fit, the fitted posterior in memory and on disk"])

p("C27", "Figures show what is recorded, and are replaced only as a whole",
  "Whatever commands ran before (re-runs with other settings, other samplers, refits), the figures of the plot command show the results recorded then: rv every observation once with its residual under the recorded posterior, "
  "trend the stored samples of each walker of each ensemble in step order, auto the recorded autocorrelation times, corner and derived the percentiles of the selected samples. If plot is killed, interrupted or hit by a disk error at any instant, "
  "every figure the status file names is a complete one, the earlier or the new, all other records and artefacts stay as they were, and running it again succeeds.",
  ["crash_points", "fault_sequences", "histories"],
  "every file-system operation of a plot command as crash point, torn write, disk-full, I/O error or interrupt, over command histories",
  "Tests check that plotting ends without an error, in an empty directory with working storage; nothing looks at what was drawn.",
  ["radvel/driver.py", "radvel/plot/orbit_plots.py", "radvel/plot/mcmc_plots.py", "radvel/plot/__init__.py"],
  [("choice of results and record of figures", "radvel/driver.py plots()"), ("reading walkers out of the table of samples", "radvel/plot/mcmc_plots.py TrendPlot.plot()"),
   ("saving figures", "radvel/plot/__init__.py savefig()")],
  ["figures named by <conf>_radvel.stat", "what is drawn on a figure when it is saved"])

p("C28", "Tables and the report show what is recorded, and are replaced only as a whole",
  "Whatever commands ran before (re-runs with other settings, other samplers, model comparisons, other tables in the same command or before), the tables of the table command and those in the document of the report show the results recorded then: "
  "rv every observation once with its time, velocity, uncertainty and instrument; params, for every parameter of the fitting basis, every orbital element and every other parameter, the median and the 15.9th and 84.1th percentile of the selected samples "
  "and the recorded maximum-likelihood value, to the precision shown, and the number of samples; derived the same of the derived samples; crit the recorded convergence statistics; ic_compare every recorded model once in the order of the AICc with its "
  "difference from the best; priors every prior once. If table is killed, interrupted or hit by a disk error at any instant, every table the status file names is a complete one, the earlier or the new, all other records and artefacts stay as they were, "
  "and running it again succeeds.",
  ["crash_points", "fault_sequences", "histories"],
  "every file-system operation of a table command as crash point, torn write, disk-full, I/O error or interrupt, over command histories and sets of tables made in one command",
  "Tests check that the commands end without an error, one table set in a fixed order with working storage; nothing compares what a table says with the samples, the data or the records.",
  ["radvel/driver.py", "radvel/report.py", "radvel/utils.py", "radvel/likelihood.py"],
  [("choice of results and record of tables", "radvel/driver.py tables(), report()"), ("values and errors of the rows", "radvel/report.py TexTable, radvel/utils.py sigfig() and geterr()"),
   ("observations of all instruments", "radvel/likelihood.py CompositeLikelihood.__init__()")],
  ["tables named by <conf>_radvel.stat", "the .tex document of the report"])

p("C29", "A model comparison fits each model asked for once, from the given solution",
  "Whatever was compared, fitted, evaluated or failed before in the session or the output directory, a model comparison (radvel ic, model_comp) fits each combination of the switched-off terms asked for (planets, eccentricities, "
  "trend terms one after the other, jitter, Gaussian process), in whatever order they are asked for, exactly once, from the given solution, with the switched-off parameters fixed at their switched-off values and every other parameter free or fixed as given. "
  "Its rows report exactly those fits, after any rows it was given. Whether it completes, fails or is interrupted, no parameter of the given posterior becomes free or fixed, its priors stay, and its values stay too unless the given model itself is all that is fitted or the comparison is with and without a Gaussian process, which leave it "
  "fitted. An interrupted command leaves the recorded comparison as it was.",
  ["histories", "fault_sequences", "crash_points", "configurations"],
  "every sequence of comparisons, fits, flag changes, copies and failing or interrupted evaluations, every list of terms, every model (planets, bases, trend, instruments, kernels, fixed and free parameters) and the options of radvel ic",
  "Tests run two comparisons and look at neither the models fitted nor the posterior that was given; which models are compared depends on the combination of planets, free parameters, terms and earlier comparisons.",
  ["radvel/fitting.py", "radvel/driver.py", "radvel/cli.py", "radvel/likelihood.py"],
  [("recursion over the terms", "radvel/fitting.py model_comp()"), ("options and list of models of the command", "radvel/driver.py ic_compare()"), ("names of the hyperparameters", "radvel/likelihood.py CompositeLikelihood.__init__()")],
  ["the posterior every fit of a comparison starts from and ends at", "return value of model_comp", "section ic_compare of <conf>_radvel.stat"])

# ---- properties with no schedule, clock, fault or history in them
NA = [
("C20", "Orbit bases are interchangeable",
 "Converting orbital parameters from any supported basis to the synthesis basis and back gives the original values, for single values and for whole chains, and the model velocity does not depend on the basis it was expressed in.",
 ["radvel/basis.py"], [("Basis.to_synth / from_synth", "radvel/basis.py")]),
("C21", "Model velocities satisfy Kepler's equation",
 "For every bound orbit and time, the modelled velocity is that of the exact solution of Kepler's equation plus the configured trend, additive over planets.",
 ["radvel/kepler.py", "radvel/model.py", "radvel/orbit.py", "src/kepler.c"], [("rv_drive", "radvel/kepler.py")]),
("C22", "Likelihoods equal their published formulae",
 "The log-likelihood of every dataset equals the Gaussian (or Gaussian-process) density of its residuals with jitter in quadrature, analytic offset marginalisation included, and a composite likelihood is the sum of its parts.",
 ["radvel/likelihood.py", "radvel/gp.py"], [("logprob", "radvel/likelihood.py")]),
("C23", "Priors are normalised densities matching their transforms",
 "Every proper prior integrates to one and its unit-cube transform is the inverse of its cumulative distribution; constraints are minus infinity exactly outside their domain.",
 ["radvel/prior.py"], [("Prior.__call__ / transform", "radvel/prior.py")]),
("C25", "Convergence statistics and information criteria equal their definitions",
 "Gelman-Rubin, independent draws, autocorrelation factors, BIC and AICc equal their published definitions for every set of chains and every posterior.",
 ["radvel/mcmc.py", "radvel/likelihood.py"], [("convergence_calculate, bic, aic", "radvel/mcmc.py, radvel/likelihood.py")]),
("C26", "Published numbers are rounded without changing their meaning",
 "Values and errors printed in tables agree with the underlying quantiles to the precision shown, for every magnitude and sign.",
 ["radvel/utils.py", "radvel/report.py"], [("sigfig, round_sig", "radvel/utils.py")]),
]
for id, t, s, f, m in NA:
    p(id, t, s, ["inputs"], "every input value; a pure function of its arguments", "Tests check a few hand-picked inputs.", f, m)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in sorted(P, key=lambda x: x['id']):
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
